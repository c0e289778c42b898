From 1d18991cc2981f35e296783245cae724f88423c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 01/80] fix: allocate whole character objects and keep
 character codes unsigned

---
 src/core/c/char.c | 2 +-
 src/core/minim.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/char.c b/src/core/c/char.c
index 9a64b43..b46fd1f 100644
--- a/src/core/c/char.c
+++ b/src/core/c/char.c
@@ -5,7 +5,7 @@
 #include "../minim.h"
 
 mobj Mchar(mchar c) {
-    mobj o = GC_alloc_atomic(sizeof(minim_char_size));
+    mobj o = GC_alloc_atomic(minim_char_size);
     minim_type(o) = MINIM_OBJ_CHAR;
     minim_char(o) = c;
     return o;
diff --git a/src/core/minim.h b/src/core/minim.h
index 780069c..e1971d3 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -175,7 +175,7 @@ extern mobj minim_unbound;
 // +------------+
 #define minim_char_size         ptr_size
 #define minim_charp(o)          (minim_type(o) == MINIM_OBJ_CHAR)
-#define minim_char(o)           (*((char *) ptr_add(o, 4)))
+#define minim_char(o)           (*((unsigned char *) ptr_add(o, 4)))
 
 #define NUL_CHAR        ((mchar) 0x00)      // null
 #define BEL_CHAR        ((mchar) 0x07)      // alarm / bell
-- 
2.43.0


From 06715c3d703300e27b0d39606a8bad89e637703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 02/80] fix: recompute the bucket of a symbol after resizing
 the intern table

---
 src/core/c/symbol.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/symbol.c b/src/core/c/symbol.c
index 589a607..8b8df61 100644
--- a/src/core/c/symbol.c
+++ b/src/core/c/symbol.c
@@ -171,8 +171,9 @@ mobj intern_symbol(intern_table *itab, const char *sym) {
     // intern symbol
     obj = Msymbol(sym);
 
-    // update table
+    // update table (resizing changes the bucket index)
     resize_if_needed(itab);
+    idx = h % itab->alloc;
     intern_table_insert(itab, idx, obj);
     return obj;
 }
-- 
2.43.0


From 51414a2cd0026900474c8886ebe3c011cd2063ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 03/80] fix: modulo of exact multiples and integer division by
 -1

---
 src/core/c/number.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/c/number.c b/src/core/c/number.c
index bb160ab..434c9e0 100644
--- a/src/core/c/number.c
+++ b/src/core/c/number.c
@@ -41,11 +41,17 @@ mobj fx2_mul(mobj x, mobj y) {
 
 mobj fx2_div(mobj x, mobj y) {
     // (-> integer integer integer)
+    // (division by -1 may overflow)
+    if (minim_fixnum(y) == -1)
+        return Mfixnum(-((unsigned long) minim_fixnum(x)));
     return Mfixnum(minim_fixnum(x) / minim_fixnum(y));
 }
 
 mobj fx_remainder(mobj x, mobj y) {
     // (-> integer integer integer)
+    // (division by -1 may overflow)
+    if (minim_fixnum(y) == -1)
+        return Mfixnum(0);
     return Mfixnum(minim_fixnum(x) % minim_fixnum(y));
 }
 
@@ -53,8 +59,8 @@ mobj fx_modulo(mobj x, mobj y) {
     // (-> integer integer integer)
     mfixnum xv = minim_fixnum(x);
     mfixnum yv = minim_fixnum(y);
-    mfixnum z = xv % yv;
-    if ((xv < 0) != (yv < 0))
+    mfixnum z = (yv == -1) ? 0 : (xv % yv);
+    if (z != 0 && (z < 0) != (yv < 0))
         z += yv;
     return Mfixnum(z);
 }
-- 
2.43.0


From 3692fee456ef8d8c7428eafaa1213ca99febe578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 04/80] fix: n-ary division divides, and dividing by zero
 reports an error

---
 src/core/s/prelude.min | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 46c9fad..fbd3301 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -664,34 +664,34 @@
         [(x)
          (if (number? x)
              (if (zero? x)
-                 (division-0-error '/ x)
+                 (divide-0-error '/ x)
                  ($fx2/ 1 x))
              (non-number-error '/ x))]
         [(x y)
          (if (number? x)
              (if (number? y)
                  (if (zero? y)
-                     (division-0-error '/ y)
+                     (divide-0-error '/ y)
                      ($fx2/ x y))
-                 (non-number-error '- y))
-             (non-number-error '- x))]
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]
         [(x y . rest)
          (if (number? x)
              (if (number? y)
                  (if (zero? y)
-                     (division-0-error '/ y)
+                     (divide-0-error '/ y)
                      (letrec-values ([(loop)
                                       (lambda (x xs)
                                          (if (null? xs)
                                              x
                                              (if (number? ($car xs))
                                                  (if (zero? ($car xs))
-                                                     (division-0-error '/ ($car xs))
-                                                     (loop ($fx2- x ($car xs)) ($cdr xs)))
-                                                 (non-number-error '- ($car xs)))))])
-                       (loop ($fx2- x y) rest)))
-                 (non-number-error '- y))
-             (non-number-error '- x))]))))
+                                                     (divide-0-error '/ ($car xs))
+                                                     (loop ($fx2/ x ($car xs)) ($cdr xs)))
+                                                 (non-number-error '/ ($car xs)))))])
+                       (loop ($fx2/ x y) rest)))
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]))))
 
 (define-values (add1)
   (lambda (x)
-- 
2.43.0


From 7b98c9043f49f66b39dd1bc0d316c227e03e3cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 05/80] fix: comparing a single number yields #t; * blames the
 right operand

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index fbd3301..2972e05 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -530,7 +530,7 @@
                      (case-lambda
                        [(x)
                         (if (number? x)
-                            x
+                            #t
                             (non-number-error who x))]
                        [(x y)
                         (if (number? x)
@@ -657,8 +657,8 @@
                                              (loop ($fx2* x ($car xs)) ($cdr xs))
                                              (non-number-error '* ($car xs)))))])
                    (loop ($fx2* x y) rest))
-                 (non-number-error '* x))
-             (non-number-error '* y))])
+                 (non-number-error '* y))
+             (non-number-error '* x))])
       ; /
       (case-lambda
         [(x)
-- 
2.43.0


From fb94b7448d66f4d40af27d80a43da81e1b74cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 06/80] fix: remainder and modulo by zero report an error
 instead of crashing

---
 src/core/s/prelude.min | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 2972e05..c02ec15 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -709,7 +709,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxremainder x y)
+            (if (zero? y)
+                (error 'remainder "division by zero" y)
+                ($fxremainder x y))
             (raise-argument-error 'remainder "number?" y))
         (raise-argument-error 'remainder "number?" x))))
 
@@ -717,7 +719,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxmodulo x y)
+            (if (zero? y)
+                (error 'modulo "division by zero" y)
+                ($fxmodulo x y))
             (raise-argument-error 'modulo "number?" y))
         (raise-argument-error 'modulo "number?" x))))
 
-- 
2.43.0


From 72e365887ca2b587d2d0089039fccd95de38fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 07/80] fix: string->list does not include the terminating NUL

---
 src/core/c/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index 8de8d31..6e776f3 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -103,7 +103,7 @@ mobj list_to_string(mobj xs) {
 mobj string_to_list(mobj s) {
     // (-> string (listof char))
     mobj lst = minim_null;
-    for (long i = strlen(minim_string(s)); i >= 0; i--)
+    for (long i = strlen(minim_string(s)) - 1; i >= 0; i--)
         lst = Mcons(Mchar(minim_string(s)[i]), lst);
     return lst;
 }
-- 
2.43.0


From 29af816b0d57ba1c76058706ec8f1d38976ec239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 08/80] fix: string->number handles the whole fixnum range

---
 src/core/c/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index 6e776f3..cd58361 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -71,7 +71,7 @@ mobj number_to_string(mobj n) {
 
 mobj string_to_number(mobj s) {
     // (-> string number)
-    return Mfixnum(atoi(minim_string(s)));
+    return Mfixnum(strtol(minim_string(s), NULL, 10));
 }
 
 mobj symbol_to_string(mobj s) {
-- 
2.43.0


From 374f2542145f130186894f295fe3c85873293363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 09/80] fix: error paths of prelude procedures refer to bound
 variables

---
 src/core/s/prelude.min | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index c02ec15..6036b20 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -815,8 +815,8 @@
                   (if (non-negative-integer? n)
                       (if (char? c)
                           (void)
-                          (raise-argument-error 'make-string "char?" init))
-                      (raise-argument-error 'make-string "non-negative-integer?" len)))])
+                          (raise-argument-error 'make-string "char?" c))
+                      (raise-argument-error 'make-string "non-negative-integer?" n)))])
     (case-lambda
       [(n)
        (check-args! n #\a)
@@ -859,7 +859,7 @@
                   (for-each (lambda (x)
                               (if (string? x)
                                   (void)
-                                  (raise-argument-error 'string-append "string?" s)))
+                                  (raise-argument-error 'string-append "string?" x)))
                             xs))]
                [(sum-lengths)
                 (lambda (xs)
@@ -1200,7 +1200,7 @@
   (lambda (str)
     (if (string? str)
         ($open-input-string str)
-        (raise-argument-error 'open-input-string "string?" name))))
+        (raise-argument-error 'open-input-string "string?" str))))
 
 (define-values (close-input-port)
   (lambda (port)
@@ -1763,7 +1763,7 @@
                              (errorf 'do-table-ref "unknown mode: ~a" mode))))]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-desriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
@@ -1819,7 +1819,7 @@
   (letrec-values ([($writer-table) (make-eq-hashtable)]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-desriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
@@ -1982,8 +1982,8 @@
                     (if (<= start len)
                         (if (<= (+ start n) len)
                             ($put-string p s start n)
-                            (raise-range-error 'put-string str "end" 0 (+ len 1) (+ start n)))
-                        (raise-range-error 'put-string str "start" 0 (+ len 1) start))))])
+                            (raise-range-error 'put-string s "end" 0 (+ len 1) (+ start n)))
+                        (raise-range-error 'put-string s "start" 0 (+ len 1) start))))])
     (case-lambda
       [(p s)
        (if (output-port? p)
@@ -2005,7 +2005,7 @@
                (if (non-negative-integer? start)
                    (if (non-negative-integer? n)
                        (1/put-string p s start n)
-                       (non-integer-error start))
+                       (non-integer-error n))
                    (non-integer-error start))
                (non-string-error s))
            (non-output-port-error p))])))
@@ -2246,7 +2246,7 @@
             (begin
               (check-format! 'fprintf fmt args)
               (do-format p fmt args))
-            (raise-argument-error 'fprintf "output port?" fmt)))
+            (raise-argument-error 'fprintf "output port?" p)))
       ; printf
       (lambda (fmt . args)
         (check-format! 'printf fmt args)
@@ -2366,8 +2366,8 @@
                                        (fail)
                                        fail)
                                    v))
-                             (raise-arugment-error 'environment-ref "symbol?" k))
-                         (raise-arugment-error 'environment-ref "environment?" env)))])        
+                             (raise-argument-error 'environment-ref "symbol?" k))
+                         (raise-argument-error 'environment-ref "environment?" env)))])        
     (case-lambda
       [(env k)
        (1/environment-ref env k default-fail)]
-- 
2.43.0


From 84ef8768ba9cafdbc15aabe17c33118e3c6b6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 10/80] fix: environment-ref without a default reports the
 missing key

---
 src/core/s/prelude.min | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 6036b20..37c374d 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2355,7 +2355,8 @@
 (define-values (environment-ref)
   (letrec-values ([(default-fail)
                    (lambda (env k)
-                     (raise-missing-error 'environment-ref "key" env k))]
+                     (lambda ()
+                       (raise-missing-error 'environment-ref "key" env k)))]
                   [(1/environment-ref)
                    (lambda (env k fail)
                      (if (environment? env)
@@ -2370,7 +2371,7 @@
                          (raise-argument-error 'environment-ref "environment?" env)))])        
     (case-lambda
       [(env k)
-       (1/environment-ref env k default-fail)]
+       (1/environment-ref env k (default-fail env k))]
       [(env k fail)
        (1/environment-ref env k fail)])))
 
-- 
2.43.0


From d60161f7c42d262d9096d698bd86f9bee698a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 11/80] fix: write-char writes the character

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 37c374d..e67ac31 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2020,12 +2020,12 @@
   (case-lambda
     [(c)
      (if (char? c)
-         ($write-char c (current-output-port))
+         ($put-char (current-output-port) c)
          (raise-argument-error 'write-char "char?" c))]
     [(c p)
      (if (char? c)
          (if (output-port? p)
-             ($write-char c p)
+             ($put-char p c)
              (raise-argument-error 'write-char "output-port?" p))
          (raise-argument-error 'write-char "char?" c))]))
 
-- 
2.43.0


From a547c4036522f3ae93f79ac3a1d1c08f0a5e9bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 12/80] fix: ~~ in format strings

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index e67ac31..3fc7270 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2193,7 +2193,7 @@
                                                                 (if (eq? nc #\%)
                                                                     (loop (+ n 2) args)
                                                                     (if (eq? nc #\~)
-                                                                        (loop (+ n 2) xs)
+                                                                        (loop (+ n 2) args)
                                                                         (errorf who "unknown format directive `~a`" nc)))))))
                                                   (loop (+ n 1) args)))))])
                        (loop 0 '())))]                                                
-- 
2.43.0


From fd53e3ceb25fdd42bbadef3f4a01f50dcadd0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 13/80] fix: default record equality and hash procedures can be
 set and read

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 3fc7270..06f8d8f 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1728,7 +1728,7 @@
     [() ($default-record-equal-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-equal-procedure proc)
+         ($default-record-equal-procedure-set! proc)
          (raise-argument-error 'default-record-equal-procedure
                                "procedure?"
                                proc))]))
@@ -1736,10 +1736,10 @@
 ; TODO: thread parameter
 (define-values (default-record-hash-procedure)
   (case-lambda
-    [() ($default-record-equal-procedure)]
+    [() ($default-record-hash-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-hash-procedure proc)
+         ($default-record-hash-procedure-set! proc)
          (raise-argument-error 'default-record-hash-procedure
                                "procedure?"
                                proc))]))
-- 
2.43.0


From 8c552709aae9f741ea369daba62ee7753db55c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 14/80] fix: record types inherit the writer of their parent

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 06f8d8f..58d23f7 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1319,7 +1319,7 @@
                   (record-type-hash-procedure rtd rec-hash)
                   (void))
               (if rec-writer
-                  (record-writer rec-writer)
+                  (record-writer rtd rec-writer)
                   (void)))
             (void))
         rtd))))
-- 
2.43.0


From 095a61f2d96f853b7981750fa99fd9a28a996444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 15/80] fix: equal? and equal-hash on hashtables

---
 src/core/s/prelude.min | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 58d23f7..5ccbbf1 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1855,7 +1855,9 @@
                   [(equal-hashtable?)
                    (lambda (a b)
                      (if (eq? (hashtable-hash-proc a) (hashtable-hash-proc b))
-                         (if (eq? (hashtable-equiv-proc a) (hashtable-equiv-proc b))
+                         (if (if (eq? (hashtable-equiv-proc a) (hashtable-equiv-proc b))
+                                 (= (hashtable-size a) (hashtable-size b))
+                                 #f)
                              (let-values ([(kas vas) (hashtable-entries a)])
                                (andmap
                                  (lambda (i)
@@ -1925,7 +1927,7 @@
                         (if (box? x)
                             (loop (unbox x) (+ hc 410225874))
                             (if (hashtable? x)
-                                (loop (hashtable->list x) hc)
+                                (+ hc (hashtable-size x))
                                 (if ($record-value? x)
                                     (let-values ([(proc) (record-hash-procedure x)])
                                       (if proc
-- 
2.43.0


From d5b66c5d3a9dfa841cfea509e887a89a17151265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 16/80] fix: hash only strings by their characters

---
 src/core/c/hashtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/hashtable.c b/src/core/c/hashtable.c
index 1987771..461f086 100644
--- a/src/core/c/hashtable.c
+++ b/src/core/c/hashtable.c
@@ -237,7 +237,7 @@ mobj equal_hash_proc(mobj x) {
     size_t hc;
     if (minim_symbolp(x)) {
         hc = hash_bytes(minim_symbol(x), strlen(minim_symbol(x)), hash_init);
-    } else if (minim_string(x)) {
+    } else if (minim_stringp(x)) {
         hc = hash_bytes(minim_string(x), strlen(minim_string(x)), hash_init);
     } else {
         hc = eq_hash(x);
-- 
2.43.0


From 1060b939c44c1cadcc660f5003923eab44857f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 17/80] fix: procedure-rename returns a renamed copy

---
 src/core/c/procedure.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/procedure.c b/src/core/c/procedure.c
index 4369ca8..09fe503 100644
--- a/src/core/c/procedure.c
+++ b/src/core/c/procedure.c
@@ -52,6 +52,6 @@ mobj procedure_rename_proc(mobj proc, mobj id) {
         minim_closure_ref(proc2, i) = minim_closure_ref(proc, i);
     }
 
-    minim_closure_name(proc) = id;
-    return proc;
+    minim_closure_name(proc2) = id;
+    return proc2;
 }
-- 
2.43.0


From ed740f15f36bb8a9ef61c063939e68ad38b64508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 18/80] fix: the stack limit is in bytes, and frames survive a
 change of stack segment

---
 src/boot/c/boot.c |  2 +-
 src/core/c/eval.c | 57 +++++++++++++++++++++++++++--------------------
 2 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/boot/c/boot.c b/src/boot/c/boot.c
index dadd89f..fb5df55 100644
--- a/src/boot/c/boot.c
+++ b/src/boot/c/boot.c
@@ -16,6 +16,6 @@ void minim_boot_init() {
     tc_stack_base(tc) = GC_alloc(stack_size);
     tc_stack_size(tc) = stack_size;
     tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    tc_esp(tc) = ptr_add(tc_sfp(tc), tc_stack_size(tc) - stack_slop);
     current_tc() = tc;
 }
diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 5cfa275..c13d08d 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -76,25 +76,40 @@ static int stack_overflowp(mobj tc, size_t size) {
     return (uintptr_t) ptr_add(tc_sfp(tc), size) >= (uintptr_t) tc_esp(tc);
 }
 
+static void set_stack_segment(mobj tc, mobj *base, size_t size) {
+    tc_stack_base(tc) = base;
+    tc_stack_size(tc) = size;
+    tc_esp(tc) = ptr_add(base, size - stack_slop);
+}
+
+// Moves the current frame to a fresh segment with room for
+// at least `size` bytes after the (new) frame pointer.
 static void grow_stack(mobj tc, size_t size) {
-    mobj srecord;
-    void *stack;
-    size_t req, actual;
+    mobj *sfp, *stack;
+    size_t frame, req, actual;
 
-    // compute required space
-    req = size + stack_slop;
+    // compute required space (esp is exclusive)
+    sfp = tc_sfp(tc);
+    frame = stack_frame_size(tc, 0);
+    req = ((size > frame) ? size : frame) + ptr_size + stack_slop;
     actual = (req > stack_size) ? req : stack_size;
 
-    // allocate stack record for previous segment
-    srecord = Mcached_stack(tc_stack_base(tc), tc_stack_link(tc), tc_stack_size(tc), tc_ccont(tc));
+    // allocate stack record for previous segment unless the frame
+    // is the only one in its segment: then it can just be replaced
+    if (sfp != tc_stack_base(tc)) {
+        tc_stack_link(tc) = Mcached_stack(
+            tc_stack_base(tc),
+            tc_stack_link(tc),
+            tc_stack_size(tc),
+            tc_ccont(tc)
+        );
+    }
 
-    // allocate new stack segment
+    // allocate new stack segment and move the current frame
     stack = GC_alloc(actual);
-    tc_stack_base(tc) = stack;
-    tc_stack_link(tc) = srecord;
-    tc_stack_size(tc) = actual;
-    tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    memcpy(stack, sfp, frame);
+    set_stack_segment(tc, stack, actual);
+    tc_sfp(tc) = stack;
 }
 
 void reserve_stack(mobj tc, size_t argc) {
@@ -193,11 +208,10 @@ static mobj do_rest(mobj tc, size_t idx) {
 }
 
 static void do_apply(mobj tc) {
-    mobj *sfp, rest;
+    mobj rest;
     size_t i, ac, req;
 
     // thread parameters
-    sfp = tc_sfp(tc);
     ac = tc_ac(tc);
 
     // the first argument becomes the current procedure
@@ -219,11 +233,8 @@ static void do_apply(mobj tc) {
 
     // check if we have room for the application
     req = stack_frame_size(tc, list_length(rest));
-    if (stack_overflowp(tc, req)) {
+    if (stack_overflowp(tc, req))
         grow_stack(tc, req);
-        for (i = 0; i < ac; i++)
-            tc_frame_ref(tc, i) = sfp[i + 1]; 
-    }
 
     // push rest argument to stack
     for (; !minim_nullp(rest); rest = minim_cdr(rest))
@@ -248,6 +259,7 @@ static mobj do_values(mobj tc) {
 static void values_to_args(mobj tc, mobj x) {
     if (minim_valuesp(x)) {
         // multi-valued
+        maybe_grow_stack(tc, tc_vc(tc));
         for (size_t i = 0; i < tc_vc(tc); i++)
             push_arg(tc, tc_values(tc)[i]);
     } else {
@@ -679,18 +691,15 @@ restore_frame:
             return tregs[0];
         }
 
-        tc_stack_base(tc) = cache_stack_base(srecord);
-        tc_stack_size(tc) = cache_stack_len(srecord);
+        set_stack_segment(tc, cache_stack_base(srecord), cache_stack_len(srecord));
         tc_stack_link(tc) = cache_stack_prev(srecord);
-        tc_sfp(tc) = tc_stack_base(tc);
-        tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
         cc = cache_stack_ret(srecord);
     } else {
         cc = tc_ccont(tc);
     }
 
     // restore instruction stream and environment
-    istream = tc_ra(tc);
+    istream = continuation_pc(cc);
     tc_env(tc) = continuation_env(cc);
 
     // update thread parameters
-- 
2.43.0


From e38aadbf10fd84f81f01be0e245036444bbfd993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 19/80] fix: loading a file from a running program keeps the
 caller's state

---
 src/core/c/eval.c | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index c13d08d..7d55985 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -449,7 +449,14 @@ static void store_reg(mobj tc, mobj *tregs, mobj ins, mobj idx, mobj val) {
 static mobj eval_istream(mobj tc, mobj *istream) {
     mobj ins, ty;   // instruction stream, instruction type
     mobj cc;        // current continuation
-    mobj penv;      // run-time environment upon entry
+
+    // caller state
+    mobj penv;          // run-time environment upon entry
+    mobj pcc, pcp;      // continuation and procedure upon entry
+    mobj *psfp, *pbase; // frame pointer and stack base upon entry
+    void *plink;        // stack link upon entry
+    size_t pac, psize;  // argument count and stack size upon entry
+    jmp_buf *preentry, reentry;
 
     // caller saved registers:
     //  %r0 [%res] - result
@@ -462,17 +469,31 @@ static mobj eval_istream(mobj tc, mobj *istream) {
     // temporary (non-register) locations
     mobj v0, v1;
     
-    // setup interpreter
+    // need to stash for when we exit this function
     tc = current_tc();
+    penv = tc_env(tc);
+    pcc = tc_ccont(tc);
+    pcp = tc_cp(tc);
+    pac = tc_ac(tc);
+    psfp = tc_sfp(tc);
+    pbase = tc_stack_base(tc);
+    psize = tc_stack_size(tc);
+    plink = tc_stack_link(tc);
+    preentry = tc_reentry(tc);
+
+    // setup interpreter
+    // (possibly called from a running interpreter, so start past its frame)
+    reserve_stack(tc, pac + 1);
+    tc_sfp(tc) = ptr_add(tc_sfp(tc), stack_frame_size(tc, 0));
+    set_stack_segment(tc, tc_sfp(tc), tc_stack_size(tc) - ((void *) tc_sfp(tc) - (void *) tc_stack_base(tc)));
+    tc_stack_link(tc) = minim_null;
+    tc_reentry(tc) = &reentry;
     tc_ra(tc) = NULL;
     tc_cp(tc) = minim_void;
     tc_ac(tc) = 0;
 
-    // need to stash for when we exit this function
-    penv = tc_env(tc);
-
     // possibly handle long jump back into the procedure
-    if (setjmp(*tc_reentry(tc)) != 0) {
+    if (setjmp(reentry) != 0) {
         // long jumped from somewhere mysterious
         // valid long jumps require an immediate function application
         goto application;
@@ -688,6 +709,13 @@ restore_frame:
             // no previous stack so we should exit
             // make sure to pop entry frame
             tc_env(tc) = penv;
+            tc_ccont(tc) = pcc;
+            tc_cp(tc) = pcp;
+            tc_ac(tc) = pac;
+            tc_sfp(tc) = psfp;
+            set_stack_segment(tc, pbase, psize);
+            tc_stack_link(tc) = plink;
+            tc_reentry(tc) = preentry;
             return tregs[0];
         }
 
-- 
2.43.0


From 6aca495903c4e378e56bffc8c3238cffa2434682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 20/80] fix: set! of an undefined variable is an error and set!
 yields void

---
 src/core/c/eval.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 7d55985..fd8c4db 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -340,7 +340,9 @@ static mobj tl_env_lookup_cell(mobj tc, mobj id) {
 
 static void tl_env_rebind(mobj tc, mobj id, mobj val) {
     mobj cell = top_env_find(tc_tenv(tc), id);
-    minim_cdar(cell) = val;
+    if (minim_falsep(cell) || minim_cdar(cell) == minim_unbound)
+        minim_error1(NULL, "cannot set variable before its definition", id);
+    minim_cdar(cell) = force_single_value(tc, val);
 }
 
 static void env_bind_cell(mobj tc, mobj cell, mobj idx) {
@@ -585,6 +587,7 @@ application:
     } else if (ty == tl_rebind_symbol) {
         // tl-rebind
         tl_env_rebind(tc, minim_cadr(ins), tregs[0]);
+        tregs[0] = minim_void;
     } else if (ty == push_env_symbol) {
         // push-env
         tc_env(tc) = Menv(minim_fixnum(minim_cadr(ins)));
-- 
2.43.0


From 32919e23992c9b99dd018bc5344882f63d527e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 21/80] fix: eval with an environment restores the previous
 environment

---
 src/core/c/eval.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index fd8c4db..8412278 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -599,8 +599,9 @@ application:
         v0 = tc_frame_ref(tc, minim_fixnum(minim_car(minim_cddr(ins))));
         store_reg(tc, tregs, ins, minim_cadr(ins), v0);
     } else if (ty == set_arg_symbol) {
-        // set-arg
-        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = tregs[0];
+        // (set-arg <stack index> <reg>)
+        v0 = load_reg(tc, tregs, ins, minim_car(minim_cddr(ins)));
+        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = v0;
     } else if (ty == get_tenv_symbol) {
         // (get-tenv <dst reg>)
         store_reg(tc, tregs, ins, minim_cadr(ins), tc_tenv(tc));
-- 
2.43.0


From e4ec2e987738b532a36c0cdd8f26d3c707d95f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 22/80] fix: eval checks the syntax of its argument

---
 src/core/c/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 8412278..6047cda 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -617,6 +617,7 @@ application:
         arity_mismatch_exn(tc_cp(tc), tc_ac(tc));
     } else if (ty == do_eval_symbol) {
         // do-eval
+        check_expr(tregs[0]);
         tregs[0] = Mclosure(Menv(0), compile_expr(tregs[0]), 0);
     } else if (ty == do_raise_symbol) {
         // do-raise
-- 
2.43.0


From ea8396eee0c508a95c9ea41705341819b2699555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 23/80] fix: the syntax checker covers lambda, case-lambda,
 empty begin and operators

---
 src/core/c/check.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index 3dad68e..b440000 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -130,9 +130,13 @@ static void check_begin(mobj expr) {
 }
 
 // Already assumes `expr` is `(<name> . <???>)`
-// Check: `expr` must be `(<name> <datum> ...)`
+// Check: `expr` must be `(<name> <formals> <datum> <datum> ...)`
 static void check_lambda(mobj expr) {
-    mobj args = minim_cadr(expr);
+    mobj args = minim_cdr(expr);
+    if (!minim_consp(args) || !minim_consp(minim_cdr(args)))
+        bad_syntax_exn(expr);
+
+    args = minim_car(args);
     for (; minim_consp(args); args = minim_cdr(args)) {
         assert_identifier(expr, minim_car(args));
     }
@@ -143,11 +147,18 @@ static void check_lambda(mobj expr) {
 }
 
 // Already assumes `expr` is `(<name> . <???>)`
-// Check: `expr` must be `(<name> <datum> ...)`
+// Check: `expr` must be `(<name> [<formals> <datum> <datum> ...] ...)`
+// with at least one clause
 static void check_case_lambda(mobj expr) {
     mobj clauses, args;
 
+    if (!minim_consp(minim_cdr(expr)))
+        bad_syntax_exn(expr);
+
     for (clauses = minim_cdr(expr); minim_consp(clauses); clauses = minim_cdr(clauses)) {
+        if (!minim_consp(minim_car(clauses)) || !minim_consp(minim_cdar(clauses)))
+            bad_syntax_exn(expr);
+
         for (args = minim_caar(clauses); minim_consp(args); args = minim_cdr(args))
             assert_identifier(expr, minim_car(args));
 
@@ -214,6 +225,9 @@ loop:
             // begin form
             check_begin(expr);
             expr = minim_cdr(expr);
+            if (minim_nullp(expr))
+                return;
+
             while (!minim_nullp(minim_cdr(expr))) {
                 check_expr(minim_car(expr));
                 expr = minim_cdr(expr);
@@ -224,7 +238,7 @@ loop:
         } else if (minim_listp(expr)) {
             // application
             check_begin(expr);
-            for (expr = minim_cdr(expr); !minim_nullp(expr); expr = minim_cdr(expr)) {
+            for (; !minim_nullp(expr); expr = minim_cdr(expr)) {
                 check_expr(minim_car(expr));
             }
         } else {
-- 
2.43.0


From c035774dbd6aa8e74c840f037449768e99cfcb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 24/80] fix: values in a non-tail position leaves the enclosing
 frame alone

---
 src/core/c/jitcompile.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 4f31bc8..c2e7a98 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -298,19 +298,27 @@ static mobj compile_mvlet(mobj expr, mobj env, int tailp) {
 }
 
 static mobj compile_mvvalues(mobj expr, mobj env, int tailp) {
-    mobj vals, ins;
+    mobj vals, ins, label;
     
     vals = minim_cdr(expr);
     if (minim_nullp(vals)) {
         ins = Mlist1(Mlist1(do_values_symbol));
     } else {
         ins = Mlist1(Mlist2(check_stack_symbol, Mfixnum(list_length(vals))));
+        if (!tailp) {
+            // the current frame may hold evaluated arguments: collect in a new frame
+            label = scope_cenv_make_label(env);
+            ins = Mcons(Mlist2(save_cc_symbol, label), ins);
+        }
+
         for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
             list_set_tail(ins, compile_expr2(minim_car(vals), env, 0));
             list_set_tail(ins, Mlist1(Mlist1(push_symbol)));
         }
 
         list_set_tail(ins, Mlist2(Mlist1(do_values_symbol), Mlist1(clear_frame_symbol)));
+        if (!tailp)
+            list_set_tail(ins, Mlist2(Mlist1(ret_symbol), label));
     }
 
     return with_tail_ret(ins, tailp);
-- 
2.43.0


From 9831929590b41af4782aac677644cf5d2705a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 25/80] fix: set! of a local variable takes a single value;
 values in a non-tail position uses its own frame

---
 src/core/c/eval.c       |  2 +-
 src/core/c/jitcompile.c | 36 +++++++++++++++++++-----------------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 6047cda..5ca31f9 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -350,7 +350,7 @@ static void env_bind_cell(mobj tc, mobj cell, mobj idx) {
 }
 
 static void env_rebind(mobj tc, mobj idx, mobj val) {
-    minim_cdr(minim_env_ref(tc_env(tc), minim_fixnum(idx))) = val;
+    minim_cdr(minim_env_ref(tc_env(tc), minim_fixnum(idx))) = force_single_value(tc, val);
 }
 
 static void env_bind_values(mobj tc, mobj idx, mobj valc, mobj ids, mobj val) {
diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index c2e7a98..a460c7b 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -300,28 +300,30 @@ static mobj compile_mvlet(mobj expr, mobj env, int tailp) {
 static mobj compile_mvvalues(mobj expr, mobj env, int tailp) {
     mobj vals, ins, label;
     
-    vals = minim_cdr(expr);
-    if (minim_nullp(vals)) {
-        ins = Mlist1(Mlist1(do_values_symbol));
+    // need a new frame if not in tail position, the
+    // current frame may hold evaluated arguments
+    if (tailp) {
+        ins = minim_null;
     } else {
-        ins = Mlist1(Mlist2(check_stack_symbol, Mfixnum(list_length(vals))));
-        if (!tailp) {
-            // the current frame may hold evaluated arguments: collect in a new frame
-            label = scope_cenv_make_label(env);
-            ins = Mcons(Mlist2(save_cc_symbol, label), ins);
-        }
+        label = scope_cenv_make_label(env);
+        ins = Mlist1(Mlist2(save_cc_symbol, label));
+    }
 
-        for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
-            list_set_tail(ins, compile_expr2(minim_car(vals), env, 0));
-            list_set_tail(ins, Mlist1(Mlist1(push_symbol)));
-        }
+    vals = minim_cdr(expr);
+    ins = list_append2(ins, Mlist1(Mlist2(check_stack_symbol, Mfixnum(list_length(vals)))));
+    for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
+        list_set_tail(ins, compile_expr2(minim_car(vals), env, 0));
+        list_set_tail(ins, Mlist1(Mlist1(push_symbol)));
+    }
 
-        list_set_tail(ins, Mlist2(Mlist1(do_values_symbol), Mlist1(clear_frame_symbol)));
-        if (!tailp)
-            list_set_tail(ins, Mlist2(Mlist1(ret_symbol), label));
+    list_set_tail(ins, Mlist3(Mlist1(do_values_symbol), Mlist1(clear_frame_symbol), Mlist1(ret_symbol)));
+
+    // need a label to jump to if not in tail position
+    if (!tailp) {
+        list_set_tail(ins, Mlist1(label));
     }
 
-    return with_tail_ret(ins, tailp);
+    return ins;
 }
 
 static mobj compile_begin(mobj expr, mobj env, int tailp) {
-- 
2.43.0


From 9b1c6eaf06605d16ceaf2f64a150f48006f11670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 26/80] fix: the arity of a case-lambda lists what its clauses
 accept

---
 src/core/c/jitcompile.c | 66 ++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 47 deletions(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index a460c7b..f9bda5f 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -13,57 +13,29 @@ static int get_formals_len(mobj e, size_t *len) {
     return !minim_nullp(e);
 }
 
-static mobj update_arity(mobj arity, size_t req_arity, int restp) {
-    if (minim_nullp(arity)) {
-        // no arity set
-        return restp ? Mcons(Mfixnum(req_arity), minim_false) : Mfixnum(req_arity);
-    } else if (minim_fixnump(arity)) {
-        // single arity
-        if (req_arity > minim_fixnum(arity)) {
-            if (restp) {
-                 return Mcons(arity, Mcons(Mfixnum(req_arity), minim_false));
-            } else {
-                return Mlist2(arity, Mfixnum(req_arity));
-            }
-        } else if (req_arity == minim_fixnum(arity)) {
-            if (restp) {
-                return Mcons(arity, minim_false);
-            } else {
-                return arity;
-            }
-        } else {
-            if (restp) {
-                return Mcons(Mfixnum(req_arity), minim_false);
-            } else {
-                return Mcons(Mfixnum(req_arity), arity);
-            }
-        }
+// Inserts an arity into an increasing list of arities:
+// a list ending in #f accepts anything past its last element
+static mobj insert_arity(mobj arities, size_t req_arity, int restp) {
+    if (minim_falsep(arities)) {
+        // covered by rest
+        return arities;
+    } else if (minim_nullp(arities) || req_arity < minim_fixnum(minim_car(arities))) {
+        return Mcons(Mfixnum(req_arity), restp ? minim_false : arities);
+    } else if (req_arity == minim_fixnum(minim_car(arities))) {
+        return restp ? Mcons(minim_car(arities), minim_false) : arities;
     } else {
-        // multi-arity or arity with rest
-        if (req_arity > minim_fixnum(minim_car(arity))) {
-            if (minim_falsep(minim_cdr(arity))) {
-                return arity;
-            } else {
-                return Mcons(minim_car(arity), update_arity(minim_cdr(arity), req_arity, restp));
-            }
-        } else if (req_arity == minim_fixnum(minim_car(arity))) {
-            if (restp) {
-                return Mcons(minim_car(arity), minim_false);
-            } else {
-                return arity;
-            }
-        } else {
-            if (restp) {
-                return Mcons(minim_car(arity), minim_false);
-            } else {
-                return Mcons(Mfixnum(req_arity), arity);
-            }
-        }
-
-        minim_error("update_arity", "unimplemented");
+        return Mcons(minim_car(arities), insert_arity(minim_cdr(arities), req_arity, restp));
     }
 }
 
+static mobj update_arity(mobj arity, size_t req_arity, int restp) {
+    if (minim_fixnump(arity))
+        arity = Mlist1(arity);
+
+    arity = insert_arity(arity, req_arity, restp);
+    return minim_nullp(minim_cdr(arity)) ? minim_car(arity) : arity;
+}
+
 //
 //  Compiler
 //
-- 
2.43.0


From 46f465ed50ad45650f9020614869cd94827fe122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 27/80] fix: closure elimination keeps the arity check of the
 closure

---
 src/core/c/jitopt.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 5597205..8a293f8 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -383,7 +383,8 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
 
         if (minim_consp(consumer) &&
             minim_car(consumer) == lambda_symbol &&
-            minim_consp(minim_cadr(consumer))) {
+            minim_consp(minim_cadr(consumer)) &&
+            minim_listp(minim_cadr(consumer))) {
             // (mv-call e (lambda (id ...) body) => (mv-let e (id ...) body)
             mobj body = minim_cddr(consumer);
             return jit_opt_L1(Mlist4(
@@ -440,7 +441,7 @@ mobj jit_opt_L1(mobj expr) {
             } else if (head == values_symbol) {
                 // values form
                 return jit_opt_L1_values(expr);
-            } else if (head == call_with_values_symbol) {
+            } else if (head == call_with_values_symbol && list_length(expr) == 3) {
                 // call-with-values form
                 return jit_opt_L1_mvcall(
                     Mlist3(
@@ -517,7 +518,10 @@ static mobj jit_opt_L2_app(mobj expr) {
     mobj hd, tl, args, body;
 
     hd = minim_car(expr);
-    if (minim_consp(hd) && minim_car(hd) == lambda_symbol && minim_listp(minim_cadr(hd))) {
+    if (minim_consp(hd) &&
+        minim_car(hd) == lambda_symbol &&
+        minim_listp(minim_cadr(hd)) &&
+        list_length(minim_cadr(hd)) == list_length(minim_cdr(expr))) {
         // `((lambda (ids ...) body ...) args ...)`
         // => `(mv-let (values args ...) (ids ...) (begin body ...)`
         args = minim_cdr(expr);
-- 
2.43.0


From daaa37eb921c27e99e885681f8a2d4bc612e20f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 28/80] fix: the reader reports the end of input inside a datum

---
 src/core/c/read.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 8b216bd..9ac1117 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -14,13 +14,13 @@ static int is_symbol_char(int c) {
     return !is_delimeter(c);
 }
 
-static void assert_not_eof(char c) {
+static void assert_not_eof(int c) {
     if (c == EOF) {
         minim_error("read_object", "unexpected end of input");
     }
 }
 
-static void assert_delimeter(char c) {
+static void assert_delimeter(int c) {
     if (!is_delimeter(c)) {
         minim_error1("read_object", "expected delimeter", Mchar(c));
     }
@@ -33,6 +33,14 @@ static void assert_matching_paren(char open, char closed) {
         minim_error2("read_object", "parenthesis mismatch", Mchar(closed), Mchar(open));
     }
 }
+
+// Reads an object that must be present
+static mobj read_datum(FILE *in) {
+    mobj o = read_object(in);
+    if (o == NULL) assert_not_eof(EOF);
+    return o;
+}
+
 static int peek_char(FILE *in) {
     int c = getc(in);
     ungetc(c, in);
@@ -201,7 +209,7 @@ static mobj read_pair(FILE *in, char open_paren) {
     }
 
     ungetc(c, in);
-    car = read_object(in);
+    car = read_datum(in);
 
     skip_whitespace(in);
     c = fgetc(in);
@@ -210,7 +218,7 @@ static mobj read_pair(FILE *in, char open_paren) {
     if (is_cons_dot(in, c)) {
         // improper list
         peek_expected_delimeter(in);
-        cdr = read_object(in);
+        cdr = read_datum(in);
 
         skip_whitespace(in);
         c = getc(in);
@@ -240,11 +248,11 @@ static mobj read_vector(FILE *in) {
         skip_whitespace(in);
         c = peek_char(in);
         if (c == ')') {
-            read_char(in);
+            getc(in);
             break;
         }
 
-        l = Mcons(read_object(in), l);
+        l = Mcons(read_datum(in), l);
     }
 
     if (minim_nullp(l)) {
@@ -258,7 +266,7 @@ mobj read_object(FILE *in) {
     char buffer[symbol_max_len];
     long num, i, block_level;
     short sign;
-    char c;
+    int c;
 
 loop:
 
@@ -288,13 +296,13 @@ loop:
             return read_char(in);
         case '\'':
             // quote
-            return Mcons(intern("quote-syntax"), Mcons(read_object(in), minim_null));
+            return Mcons(intern("quote-syntax"), Mcons(read_datum(in), minim_null));
         case '(':
             // vector
             return read_vector(in);
         case '&':
             // vector
-            return Mbox(read_object(in));
+            return Mbox(read_datum(in));
         case 'x':
             // hex number
             c = getc(in);
@@ -304,7 +312,7 @@ loop:
             skip_whitespace(in);
             c = peek_char(in);
             assert_not_eof(c);
-            read_object(in);        // throw away
+            read_datum(in);         // throw away
             goto loop;
         case '|':
             // block comment
@@ -433,7 +441,7 @@ read_hex:
         return read_pair(in, c);
     } else if (c == '\'') {
         // quoted expression
-        return Mcons(intern("quote"), Mcons(read_object(in), minim_null));
+        return Mcons(intern("quote"), Mcons(read_datum(in), minim_null));
     } else if (is_symbol_char(c) || ((c == '+' || c == '-') && is_delimeter(peek_char(in)))) {
         // symbol
         i = 0;
-- 
2.43.0


From 4bf18bfc36db8a6693b0c0fc55bf8fe2f5dfa10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 29/80] fix: the reader stays within its token buffer

---
 src/core/c/read.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 9ac1117..6dd342b 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -263,7 +263,7 @@ static mobj read_vector(FILE *in) {
 }
 
 mobj read_object(FILE *in) {
-    char buffer[symbol_max_len];
+    char buffer[symbol_max_len + 1];
     long num, i, block_level;
     short sign;
     int c;
@@ -358,6 +358,10 @@ loop:
 
         // magnitude
         while (isdigit(c = getc(in))) {
+            if (i >= symbol_max_len) {
+                minim_error("read_object", "number exceeded max length");
+            }
+
             buffer[i++] = c;
             num = (num * 10) + (c - '0');
         }
@@ -390,6 +394,10 @@ read_hex:
 
         // magnitude
         while (isxdigit(c = getc(in))) {
+            if (i >= symbol_max_len) {
+                minim_error("read_object", "number exceeded max length");
+            }
+
             buffer[i++] = c;
             if ('A' <= c && c <= 'F')       num = (num * 16) + (10 + (c - 'A'));
             else if ('a' <= c && c <= 'f')  num = (num * 16) + (10 + (c - 'a'));
-- 
2.43.0


From a3ced788958b9697d2a80cfce28d6e09eaf22d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 30/80] fix: symbols that start like a number keep their
 spelling

---
 src/core/c/read.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 6dd342b..69aa8e5 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -348,12 +348,11 @@ loop:
         i = 0;
 
         // optional sign
-        if (c == '-') {
-            sign = -1;
+        if (c == '-' || c == '+') {
+            sign = (c == '-') ? -1 : 1;
             buffer[i++] = c;
-        } else if (c != '+') {
+        } else {
             ungetc(c, in);
-            buffer[i++] = c;
         }
 
         // magnitude
@@ -384,12 +383,11 @@ read_hex:
         i = 0;
 
         // optional sign
-        if (c == '-') {
-            sign = -1;
+        if (c == '-' || c == '+') {
+            sign = (c == '-') ? -1 : 1;
             buffer[i++] = c;
-        } else if (c != '+') {
+        } else {
             ungetc(c, in);
-            buffer[i++] = c;
         }
 
         // magnitude
-- 
2.43.0


From f5e8df2e7d959d484e540e54a4965027b0c43c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 31/80] fix: malformed hexadecimal numbers are rejected

---
 src/core/c/read.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 69aa8e5..4d239c0 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -376,11 +376,11 @@ loop:
         return Mfixnum(num * sign);
     } else if (0) {
         // hexadecimal number
-        // same caveat applies: if we encounter a non-digit, the token is a symbol
 read_hex:
         num = 0;
         sign = 1;
         i = 0;
+        buffer[0] = '\0';
 
         // optional sign
         if (c == '-' || c == '+') {
@@ -402,8 +402,8 @@ read_hex:
             else                            num = (num * 16) + (c - '0');
         }
 
-        if (is_symbol_char(c)) {
-            goto read_symbol;
+        if (is_symbol_char(c) || !isxdigit(buffer[i > 0 ? i - 1 : 0])) {
+            minim_error("read_object", "malformed hexadecimal number");
         }
 
         // check for delimeter
-- 
2.43.0


From ffe9df61003e1964216fa241cb7bcd545c02a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 32/80] fix: block and datum comments may appear wherever
 whitespace may

---
 src/core/c/read.c | 69 ++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 4d239c0..28ae19d 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -61,6 +61,26 @@ static int is_cons_dot(FILE *in, int c) {
     return isspace(c);
 }
 
+static void skip_block_comment(FILE *in) {
+    int c, prev, level;
+
+    prev = 0;
+    level = 1;
+    while (level > 0) {
+        c = getc(in);
+        assert_not_eof(c);
+        if (prev == '#' && c == '|') {
+            ++level;
+            prev = 0;
+        } else if (prev == '|' && c == '#') {
+            --level;
+            prev = 0;
+        } else {
+            prev = c;
+        }
+    }
+}
+
 static void skip_whitespace(FILE *in) {
     int c;
 
@@ -72,6 +92,21 @@ static void skip_whitespace(FILE *in) {
             while (((c = getc(in)) != EOF) && (c != '\n'));
             ungetc(c, in);
             continue;
+        } else if (c == '#') {
+            c = peek_char(in);
+            if (c == '|') {
+                // block comment
+                getc(in);
+                skip_block_comment(in);
+                continue;
+            } else if (c == ';') {
+                // datum comment: throw away
+                getc(in);
+                read_datum(in);
+                continue;
+            }
+
+            c = '#';
         }
         
         // too far
@@ -264,12 +299,10 @@ static mobj read_vector(FILE *in) {
 
 mobj read_object(FILE *in) {
     char buffer[symbol_max_len + 1];
-    long num, i, block_level;
+    long num, i;
     short sign;
     int c;
 
-loop:
-
     skip_whitespace(in);
     c = getc(in);
     // no assertion: may actually be at end
@@ -307,36 +340,6 @@ loop:
             // hex number
             c = getc(in);
             goto read_hex;
-        case ';':
-            // datum comment
-            skip_whitespace(in);
-            c = peek_char(in);
-            assert_not_eof(c);
-            read_datum(in);         // throw away
-            goto loop;
-        case '|':
-            // block comment
-            block_level = 1;
-            while (block_level > 0) {
-                c = fgetc(in);
-                assert_not_eof(c);
-                switch (c)
-                {
-                case '#':
-                    c = fgetc(in);
-                    assert_not_eof(c);
-                    if (c == '|') ++block_level;
-                    break;
-                
-                case '|':
-                    c = fgetc(in);
-                    assert_not_eof(c);
-                    if (c == '#') --block_level;
-                    break;
-                }
-            }
-
-            goto loop;
         default:
             minim_error1("read_object", "unknown special datum", Mchar(c));   
         }
-- 
2.43.0


From a56a54b635981c38d5f3a55a5bd927aeea42890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 33/80] fix: the reader accepts every string escape that write
 produces

---
 src/core/c/read.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 28ae19d..8d5c624 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -421,7 +421,17 @@ read_hex:
             assert_not_eof(c);
             if (c == '\\') {
                 c = getc(in);
-                if (c == 'n') {
+                if (c == 'a') {
+                    c = BEL_CHAR;
+                } else if (c == 'b') {
+                    c = BS_CHAR;
+                } else if (c == 'f') {
+                    c = FF_CHAR;
+                } else if (c == 'r') {
+                    c = CR_CHAR;
+                } else if (c == 'v') {
+                    c = VT_CHAR;
+                } else if (c == 'n') {
                     c = '\n';
                 } else if (c == 't') {
                     c = '\t';
-- 
2.43.0


From 20efd1f3d9d56d42e2fa8058d986582af4db6f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 34/80] fix: write prints empty vectors, boxes and hashtables

---
 src/core/s/prelude.min | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 5ccbbf1..0fce4a3 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2044,6 +2044,8 @@
                      (if (char? x) (if d? (put-char p x) (wrchar x p))
                      (if (string? x) (if d? (put-string p x) (wrstring x p))
                      (if (vector? x) (wrvector x d? p)
+                     (if (box? x) (wrbox x d? p)
+                     (if (hashtable? x) (put-string p "#<hashtable>")
                      (if (eof-object? x) (put-string p "#<eof>")
                      (if (void? x) (put-string p "#<void>")
                      (if (input-port? x) (put-string p "#<input port>")
@@ -2053,7 +2055,7 @@
                      (if (environment? x) (put-string p "#<environment>")
                      (if (record-type-descriptor? x) (wrrtd x d? p)
                      (if ($record-value? x) (wrrecord x d? p)
-                     (put-string p "#<garbage>")))))))))))))))))))]
+                     (put-string p "#<garbage>")))))))))))))))))))))]
                   ; character writer
                   [(wrchar)
                    (lambda (x p)
@@ -2110,18 +2112,23 @@
                   ; vector writer
                   [(wrvector)
                    (lambda (x d? p)
-                     (put-char p #\#)
+                     (put-string p "#(")
                      (letrec-values ([(n) (vector-length x)]
                                      [(loop)
-                                      (lambda (i sep)
+                                      (lambda (i)
                                         (if (>= i n)
                                             (void)
                                             (begin
-                                              (put-char p sep)
+                                              (if (> i 0) (put-char p #\space) (void))
                                               (wr (vector-ref x i) d? p)
-                                              (loop (+ i 1) #\space))))])
-                       (loop 0 lparen))
+                                              (loop (+ i 1)))))])
+                       (loop 0))
                      (put-char p rparen))]
+                  ; box writer
+                  [(wrbox)
+                   (lambda (x d? p)
+                     (put-string p "#&")
+                     (wr (unbox x) d? p))]
                   ; record type writer
                   [(wrrtd)
                    (lambda (x d? p)
-- 
2.43.0


From 46c9d4891b359548b7c7792ca41baf11a4d3c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 35/80] fix: truncated or malformed FASL data is reported as an
 error

---
 src/core/c/fasl.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index 27146aa..cd72dea 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -73,7 +73,12 @@
 //
 
 #define read_fasl_type(ip)       ((mbyte) fgetc(ip))
-#define read_fasl_byte(ip)       ((mbyte) fgetc(ip))
+
+static mbyte read_fasl_byte(FILE *in) {
+    int c = fgetc(in);
+    if (c == EOF) minim_error("read_fasl", "unexpected end of FASL data");
+    return c;
+}
 
 // Unserializes a word that is encoded using a variable-length
 // block encoding 7-bits of the word per byte
@@ -88,6 +93,8 @@ static muptr read_fasl_uptr(FILE *in) {
         c = b & 0x1;
         b >>= 1;
 
+        if (offset >= 64) minim_error("read_fasl", "malformed FASL data");
+
         // shift it into the right place
         u |= (((muptr) b) << offset);
         offset += 7;
@@ -214,9 +221,7 @@ mobj read_fasl(FILE *in) {
         return read_fasl_record(in);
     
     default:
-        fprintf(stderr, "read_fasl: malformed FASL data\n");
-        exit(1);
-        break;
+        minim_error("read_fasl", "malformed FASL data");
     }
 }
 
@@ -331,11 +336,7 @@ void write_fasl(FILE *out, mobj o) {
         write_fasl_type(out, FASL_RECORD);
         write_fasl_record(out, o);
     } else {
-        fprintf(stderr, "write_fasl: object not serializable\n");
-        fprintf(stderr, " object: ");
-        write_object(stderr, o);
-        fprintf(stderr, "\n");
-        exit(1);
+        minim_error1("write_fasl", "object not serializable", o);
     }
 }
 
-- 
2.43.0


From 44f3a12bee9640b1c97caddcbf5cb1bc92ae858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 36/80] fix: read returns the eof object at the end of input

---
 src/core/c/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index b6b0baa..4ba7e5e 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -174,7 +174,8 @@ mobj get_output_string(mobj port) {
 
 mobj read_proc(mobj port) {
     // (-> input-port? any/c)
-    return read_object(minim_port(port));
+    mobj o = read_object(minim_port(port));
+    return (o == NULL) ? minim_eof : o;
 }
 
 mobj read_char_proc(mobj port) {
-- 
2.43.0


From 462774fad328bb2814aa66f96ede0420e6eb6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 37/80] fix: operations on a closed port are errors

---
 src/core/c/fasl.c |  4 ++++
 src/core/c/io.c   | 45 +++++++++++++++++++++++++++------------------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index cd72dea..f773e81 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -346,11 +346,15 @@ void write_fasl(FILE *out, mobj o) {
 
 mobj fasl_read_proc(mobj port) {
     // (-> input-port any)
+    if (!minim_port_openp(port))
+        minim_error1("fasl-read", "port is closed", port);
     return read_fasl(minim_port(port));
 }
 
 mobj fasl_write_proc(mobj x, mobj port) {
     // (-> any output-port void)
+    if (!minim_port_openp(port))
+        minim_error1("fasl-write", "port is closed", port);
     write_fasl(minim_port(port), x);
     return minim_void;
 }
diff --git a/src/core/c/io.c b/src/core/c/io.c
index 4ba7e5e..489c5ce 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -17,10 +17,19 @@ static void gc_port_dtor(void *ptr, void *data) {
         fclose(minim_port(o));
 }
 
+// Returns the stream of an open port
+static FILE *open_stream(mobj port) {
+    if (!minim_port_openp(port)) {
+        minim_error1(NULL, "port is closed", port);
+    }
+
+    return minim_port(port);
+}
+
 mobj Minput_port(FILE *stream) {
     mobj o = GC_alloc(minim_port_size);
     minim_type(o) = MINIM_OBJ_PORT;
-    minim_port_flags(o) = PORT_FLAG_READ;
+    minim_port_flags(o) = PORT_FLAG_OPEN | PORT_FLAG_READ;
     minim_port(o) = stream;
     GC_register_dtor(o, gc_port_dtor);
     return o;
@@ -29,7 +38,7 @@ mobj Minput_port(FILE *stream) {
 mobj Moutput_port(FILE *stream) {
     mobj o = GC_alloc(minim_port_size);
     minim_type(o) = MINIM_OBJ_PORT;
-    minim_port_flags(o) = 0x0;
+    minim_port_flags(o) = PORT_FLAG_OPEN;
     minim_port(o) = stream;
     GC_register_dtor(o, gc_port_dtor);
     return o;
@@ -136,14 +145,14 @@ mobj open_output_string() {
 
 mobj close_input_port(mobj port) {
     // (-> input-port? void)
-    fclose(minim_port(port));
+    fclose(open_stream(port));
     minim_port_unset(port, PORT_FLAG_OPEN);
     return minim_void;
 }
 
 mobj close_output_port(mobj port) {
     // (-> output-port? void)
-    fclose(minim_port(port));
+    fclose(open_stream(port));
     minim_port_unset(port, PORT_FLAG_OPEN);
     return minim_void;
 }
@@ -154,17 +163,17 @@ mobj get_output_string(mobj port) {
     size_t len, read;
     
     // read from file
-    len = ftell(minim_port(port));
+    len = ftell(open_stream(port));
     if (len != 0) {
         str = Mstring2(len, 0);
-        fseek(minim_port(port), 0, SEEK_SET);
-        read = fread(minim_string(str), len, 1, minim_port(port));
+        fseek(open_stream(port), 0, SEEK_SET);
+        read = fread(minim_string(str), len, 1, open_stream(port));
         if (read != 1) {
             minim_error("get-output-string", "failed to read from");
         }
 
         // reset port, set null-terminator and return
-        rewind(minim_port(port));
+        rewind(open_stream(port));
         minim_string(str)[len] = '\0';
         return str;
     } else {
@@ -174,39 +183,39 @@ mobj get_output_string(mobj port) {
 
 mobj read_proc(mobj port) {
     // (-> input-port? any/c)
-    mobj o = read_object(minim_port(port));
+    mobj o = read_object(open_stream(port));
     return (o == NULL) ? minim_eof : o;
 }
 
 mobj read_char_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
+    mchar ch = getc(open_stream(port));
     return (ch == EOF) ? minim_eof : Mchar(ch);
 }
 
 mobj peek_char_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
-    ungetc(ch, minim_port(port));
+    mchar ch = getc(open_stream(port));
+    ungetc(ch, open_stream(port));
     return (ch == EOF) ? minim_eof : Mchar(ch);
 }
 
 mobj char_readyp_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
-    ungetc(ch, minim_port(port));
+    mchar ch = getc(open_stream(port));
+    ungetc(ch, open_stream(port));
     return (ch == EOF) ? minim_false : minim_true;
 }
 
 mobj put_char_proc(mobj port, mobj ch) {
     // (-> output-port? char? void)
-    putc(minim_char(ch), minim_port(port));
+    putc(minim_char(ch), open_stream(port));
     return minim_void;
 }
 
 mobj flush_output_proc(mobj port) {
     // (-> output-port? void)
-    fflush(minim_port(port));
+    fflush(open_stream(port));
     return minim_void;
 }
 
@@ -215,7 +224,7 @@ mobj put_string_proc(mobj port, mobj str, mobj start, mobj len) {
     long start_idx = minim_fixnum(start);
     long end_idx = start_idx + minim_fixnum(len);
     for (long i = start_idx; i < end_idx; i++) {
-        putc(minim_string_ref(str, i), minim_port(port));
+        putc(minim_string_ref(str, i), open_stream(port));
     }
 
     return minim_void;
@@ -223,6 +232,6 @@ mobj put_string_proc(mobj port, mobj str, mobj start, mobj len) {
 
 mobj newline_proc(mobj port) {
     // (-> output-port? void)
-    putc('\n', minim_port(port));
+    putc('\n', open_stream(port));
     return minim_void;
 }
-- 
2.43.0


From e5a1d2a17a5c059e42d1a6e0d4d6bcde28b7f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 38/80] fix: format closes its string port

---
 src/core/s/prelude.min | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 0fce4a3..92b7058 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2269,7 +2269,9 @@
         (check-format! 'format fmt args)
         (let-values ([(p) (open-output-string)])
           (do-format p fmt args)
-          (get-output-string p))))))
+          (let-values ([(s) (get-output-string p)])
+            (close-output-port p)
+            s))))))
                                         
 
 ;; --------------------------------------------------------
-- 
2.43.0


From 39d08cfd0f0b6352a9f7ee9a0d124030a73d779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 39/80] fix: closing a closed port has no effect

---
 src/core/c/io.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index 489c5ce..ee4b8df 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -145,15 +145,21 @@ mobj open_output_string() {
 
 mobj close_input_port(mobj port) {
     // (-> input-port? void)
-    fclose(open_stream(port));
-    minim_port_unset(port, PORT_FLAG_OPEN);
+    if (minim_port_openp(port)) {
+        fclose(minim_port(port));
+        minim_port_unset(port, PORT_FLAG_OPEN);
+    }
+
     return minim_void;
 }
 
 mobj close_output_port(mobj port) {
     // (-> output-port? void)
-    fclose(open_stream(port));
-    minim_port_unset(port, PORT_FLAG_OPEN);
+    if (minim_port_openp(port)) {
+        fclose(minim_port(port));
+        minim_port_unset(port, PORT_FLAG_OPEN);
+    }
+
     return minim_void;
 }
 
-- 
2.43.0


From bf482c4c6779780f8afabad0a7bc32323b8aa39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 40/80] fix: make-record-type-descriptor checks its arguments

---
 src/core/s/prelude.min | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 92b7058..16c6526 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1230,17 +1230,19 @@
                          (let-values ([(type) ($car field)]
                                       [(rib) ($cdr field)])
                             (if (if (eq? type 'immutable) #t (eq? type 'mutable))
-                                (let-values ([(name) ($car rib)]
-                                             [(rib) ($cdr rib)])
-                                   (if (symbol? name)
-                                       (if (null? rib)
-                                           name
-                                           #f)
-                                       #f))
+                                (if (pair? rib)
+                                    (let-values ([(name) ($car rib)]
+                                                 [(rib) ($cdr rib)])
+                                       (if (symbol? name)
+                                           (if (null? rib)
+                                               name
+                                               #f)
+                                           #f))
+                                    #f)
                                 #f))
                          #f))]
                   [(check-args!)
-                   (lambda (name parent uid sealed? opaque?)
+                   (lambda (name parent uid sealed? opaque? fields)
                      (if (symbol? name)
                          (if (if (record-type-descriptor? parent)
                                  (begin
@@ -1304,10 +1306,10 @@
                                  (raise-argument-error
                                    'make-record-type-descriptor
                                    "invalid field; '(immutable <name>) or '(mutable <name>)"
-                                   field))))
+                                   ($vector-ref fields i)))))
                          (iota ($vector-length fields)))))])
     (lambda (name parent uid sealed? opaque? fields)
-      (let-values ([(rtd) ($make-record-type-descriptor name parent uid sealed? opaque? fields)])
+      (let-values ([(rtd) (check-args! name parent uid sealed? opaque? fields)])
         (if parent
             (let-values ([(rec-equal?) (record-type-equal-procedure parent)]
                          [(rec-hash) (record-type-hash-procedure parent)]
@@ -2444,7 +2446,7 @@
 
 ; base exception
 (define-values (&exn make-exn exn? exn-who exn-message)
-  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #t #t #(who message))])
+  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #f #t #((immutable who) (immutable message)))])
     (values &exn
             (record-constructor &exn)
             (record-predicate &exn)
@@ -2453,7 +2455,7 @@
 
 ; argument exception
 (define-values (&argument make-argument-exn argument-exn? argument-exn-expect argument-exn-actual)
-  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &argument
             (record-constructor &argument)
             (record-predicate &argument)
@@ -2462,7 +2464,7 @@
 
 ; arity exception
 (define-values (&arity make-arity-exn arity-exn? arity-exn-expect arity-exn-actual)
-  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &arity
             (record-constructor &arity)
             (record-predicate &arity)
@@ -2471,7 +2473,7 @@
 
 ; range exception
 (define-values (&range make-range-exn range-exn? range-exn-value range-exn-description range-exn-lower range-exn-upper range-exn-index)
-  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #(value description lower upper index))])
+  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #((immutable value) (immutable description) (immutable lower) (immutable upper) (immutable index)))])
     (values &range
             (record-constructor &range)
             (record-predicate &range)
@@ -2483,7 +2485,7 @@
 
 ; missing exception
 (define-values (&missing make-missing-exn missing-exn? missing-exn-description missing-exn-value missing-exn-key)
-  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #(description value key))])
+  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #((immutable description) (immutable value) (immutable key)))])
     (values &missing
             (record-constructor &missing)
             (record-predicate &missing)
@@ -2493,7 +2495,7 @@
 
 ; syntax exception
 (define-values (&syntax make-syntax-exn syntax-exn? syntax-exn-form syntax-exn-subform)
-  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #(form subform))])
+  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #((immutable form) (immutable subform)))])
     (values &syntax
             (record-constructor &syntax)
             (record-predicate &syntax)
-- 
2.43.0


From 1633f129ed03660b88212ba5eefdf31cce99db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 41/80] fix: a record constructor reports its arity error under
 its name

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 16c6526..62d6904 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1398,7 +1398,7 @@
                              (lambda args
                                (if (= (length args) size)
                                    ($make-record rtd args)
-                                   (raise-arity-error make size (length args))))])
+                                   (raise-arity-error (procedure-name make) size (length args))))])
               make)
             (raise-argument-error
               'record-constructor
-- 
2.43.0


From 6393f38d29cf8d8e7ef1921e6b3736746bbf154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 42/80] fix: vector-ref and vector-set! report index errors as
 range errors

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 62d6904..dbdac12 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1133,7 +1133,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-ref "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-ref v "" 0 ($vector-length v) idx)
                 ($vector-ref v idx))
             (raise-argument-error 'vector-ref "non-negative-integer?" idx))
         (raise-argument-error 'vector-ref "vector?" v))))
@@ -1143,7 +1143,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-set! "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-set! v "" 0 ($vector-length v) idx)
                 ($vector-set! v idx x))
             (raise-argument-error 'vector-set! "non-negative-integer?" idx))
         (raise-argument-error 'vector-set! "vector?" v))))
-- 
2.43.0


From 05484252456318672e90f9bb8460b3915fba3294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 43/80] fix: error closes its string port

---
 src/core/s/prelude.min | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index dbdac12..678dbce 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2586,7 +2586,9 @@
                         (begin
                           (fprintf p "  arguments...:")
                           (for-each (lambda (x) (fprintf p "\n   ~s" x)) args)))
-                    (make-exn who (get-output-string p)))))
+                    (let-values ([(s) (get-output-string p)])
+                      (close-output-port p)
+                      (make-exn who s)))))
             (raise-argument-error 'error "string?" msg))
         (raise-argument-error 'error "symbol? or string? or #f" who))))
 
-- 
2.43.0


From 8af88bd140a796ae6aba014d124108b4f4501116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 44/80] fix: a procedure applied to too many arguments in a
 values producer is an arity error

---
 src/core/c/jitopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 8a293f8..41574f7 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -338,7 +338,7 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
     e = minim_cadr(expr);
     consumer = minim_car(minim_cddr(expr));
     if (minim_consp(e)) {
-        if (minim_consp(minim_car(e)) && minim_caar(e) == lambda_symbol) {
+        if (minim_consp(minim_car(e)) && minim_caar(e) == lambda_symbol && minim_nullp(minim_cdr(e))) {
             producer = minim_car(e);
             if (minim_nullp(minim_cadr(producer))) {
                 // producer is `(lambda () e ...)`
-- 
2.43.0


From 8e68fe80f60e91399c97483e81e2df57043df5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 45/80] fix: a variable that is only mentioned is not a binding
 of its environment

---
 src/core/c/env.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/c/env.c b/src/core/c/env.c
index 41a322a..7efcf1c 100644
--- a/src/core/c/env.c
+++ b/src/core/c/env.c
@@ -161,7 +161,8 @@ static mobj top_env_symbols(mobj env) {
         b = minim_top_env_bucket(env, i);
         for (; !minim_nullp(b); b = minim_cdr(b)) {
             cell = minim_car(b);
-            syms = Mcons(minim_caar(cell), syms);
+            if (minim_cdar(cell) != minim_unbound)
+                syms = Mcons(minim_caar(cell), syms);
         }
     }
 
@@ -236,7 +237,7 @@ mobj environment_names(mobj env) {
 mobj environment_variable_ref(mobj env, mobj k, mobj fail) {
     // (-> environment symbol any)
     mobj cell = top_env_find(env, k);
-    return minim_falsep(cell) ? fail : minim_cdar(cell);
+    return (minim_falsep(cell) || minim_cdar(cell) == minim_unbound) ? fail : minim_cdar(cell);
 }
 
 mobj environment_variable_set(mobj env, mobj k, mobj v) {
-- 
2.43.0


From 89f08cbc673c761ccf14f9996335bbd15380e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:33 +0000
Subject: [PATCH 46/80] fix: selectors of three and four steps report the
 contract they check

---
 src/core/s/prelude.min | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 678dbce..0ddf3bb 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -142,7 +142,7 @@
 (define-values (caddr)
   (let-values ([(oops!)
                 (lambda (x)
-                  (raise-argument-error 'caddr "(pairof (pairof any pair?) any)" x))]) 
+                  (raise-argument-error 'caddr "(pairof any (pairof any pair?))" x))]) 
     (lambda (x)
       (if (pair? x)
           (let-values ([(t) ($cdr x)])
@@ -202,7 +202,7 @@
 (define-values (cdddr)
   (let-values ([(oops!)
                 (lambda (x)
-                  (raise-argument-error 'cdddr "(pairof (pairof any pair?) any)" x))]) 
+                  (raise-argument-error 'cdddr "(pairof any (pairof any pair?))" x))]) 
     (lambda (x)
       (if (pair? x)
           (let-values ([(t) ($cdr x)])
@@ -271,7 +271,7 @@
 (define-values (caaddr)
   (let-values ([(oops!)
                 (lambda (x)
-                  (raise-argument-error 'caaddr "(pairof (pairof any (pairof pair? any)) any)" x))]) 
+                  (raise-argument-error 'caaddr "(pairof any (pairof any (pairof pair? any)))" x))]) 
     (lambda (x)
       (if (pair? x)
           (let-values ([(t) ($cdr x)])
@@ -343,7 +343,7 @@
 (define-values (cadddr)
   (let-values ([(oops!)
                 (lambda (x)
-                  (raise-argument-error 'cadddr "(pairof (pairof any (pairof any pair?) any)" x))]) 
+                  (raise-argument-error 'cadddr "(pairof any (pairof any (pairof any pair?)))" x))]) 
     (lambda (x)
       (if (pair? x)
           (let-values ([(t) ($cdr x)])
@@ -415,7 +415,7 @@
 (define-values (cdaddr)
   (let-values ([(oops!)
                 (lambda (x)
-                  (raise-argument-error 'cdaddr "(pairof (pairof any (pairof pair? any)) any)" x))]) 
+                  (raise-argument-error 'cdaddr "(pairof any (pairof any (pairof pair? any)))" x))]) 
     (lambda (x)
       (if (pair? x)
           (let-values ([(t) ($cdr x)])
@@ -487,7 +487,7 @@
 (define-values (cddddr)
   (let-values ([(oops!)
                 (lambda (x)
-                  (raise-argument-error 'cddddr "(pairof (pairof any (pairof any pair?) any)" x))]) 
+                  (raise-argument-error 'cddddr "(pairof any (pairof any (pairof any pair?)))" x))]) 
     (lambda (x)
       (if (pair? x)
           (let-values ([(t) ($cdr x)])
-- 
2.43.0


From 1b5a71c478199e4e5a9f30d30ec8dc0ddf528051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:33 +0000
Subject: [PATCH 47/80] fix: argument errors name the procedure that was called

---
 src/core/s/prelude.min | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 0ddf3bb..3327b7b 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -928,7 +928,7 @@
   (lambda (len init)
     (if (if (integer? len) (>= len 0) #f)
         ($make-list len init)
-        (raise-argument-error 'length "non-negative-integer?" len))))
+        (raise-argument-error 'make-list "non-negative-integer?" len))))
 
 (define-values (length)
   (lambda (xs)
@@ -1152,7 +1152,7 @@
   (lambda (v x)
     (if (vector? v)
         ($vector-fill! v x)
-        (raise-argument-error 'vector->list "vector?" v))))
+        (raise-argument-error 'vector-fill! "vector?" v))))
 
 (define-values (list->vector)
   (lambda (xs)
@@ -1206,13 +1206,13 @@
   (lambda (port)
     (if (input-port? port)
         ($close-input-port port)
-        (raise-argument-error 'close-input-file "input-port?" port))))
+        (raise-argument-error 'close-input-port "input-port?" port))))
 
 (define-values (close-output-port)
   (lambda (port)
     (if (output-port? port)
         ($close-output-port port)
-        (raise-argument-error 'close-output-file "output-port?" port))))
+        (raise-argument-error 'close-output-port "output-port?" port))))
 
 (define-values (get-output-string)
   (lambda (port)
@@ -1353,7 +1353,7 @@
             (let-values ([(fields) ($record-type-field-names rtd)])
               (if (< idx ($vector-length fields))
                   ($record-type-field-mutable? rtd idx)
-                  (raise-range-error 'record-type-field-mutable rtd "" 0 ($vector-length fields) idx)))
+                  (raise-range-error 'record-type-field-mutable? rtd "" 0 ($vector-length fields) idx)))
             (raise-argument-error 'record-type-field-mutable? "non-negative integer?" idx))
         (raise-argument-error 'record-type-field-mutable? "record-type-name?" rtd))))
 
@@ -1492,7 +1492,7 @@
   (lambda (ht)
     (if (hashtable? ht)
         ($hashtable-size ($hashtable-store ht))
-        (raise-argument-error 'hashtable-set! "hashtable?" ht))))
+        (raise-argument-error 'hashtable-size "hashtable?" ht))))
 
 (define-values (hashtable-entries hashtable-keys hashtable-vals)
   (let-values ([(check-arg!)
@@ -1518,7 +1518,7 @@
           (loop ($hashtable-cells store) 0)))
       ; hashtable-keys
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
+        (check-arg! 'hashtable-keys ht)
         (letrec-values ([(store) ($hashtable-store ht)]
                         [(size) ($hashtable-size store)]
                         [(keys) ($make-vector size #f)]
@@ -1531,7 +1531,7 @@
           (loop ($hashtable-cells store) 0)))
       ; hashtable-vals
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
+        (check-arg! 'hashtable-vals ht)
         (letrec-values ([(store) ($hashtable-store ht)]
                         [(size) ($hashtable-size store)]
                         [(vals) ($make-vector size #f)]
@@ -1678,7 +1678,7 @@
       (lambda (ht k)
         (if (hashtable? ht)
             (1/hashtable-contains? ht k)
-            (non-hashtable-error 'hashtable-set! ht)))
+            (non-hashtable-error 'hashtable-contains? ht)))
       ; hashtable-ref
       (case-lambda
         [(ht k)
@@ -1700,7 +1700,7 @@
          (if (hashtable? ht)
              (if (procedure? updater)
                  (1/hashtable-update! ht k updater
-                                      (lambda () (no-key! 'hashtable-update ht k)))
+                                      (lambda () (no-key! 'hashtable-update! ht k)))
                  (raise-argument-error 'hashtable-update! "procedure?" updater))
              (non-hashtable-error 'hashtable-update! ht))]
         [(ht k updater default)
@@ -1713,7 +1713,7 @@
       (lambda (ht k)
         (if (hashtable? ht)
             (1/hashtable-cell-delete! ht k)
-            (non-hashtable-error 'hashtable-set! ht))))))
+            (non-hashtable-error 'hashtable-delete! ht))))))
 
 (define-values (hashtable-clear!)
   (lambda (ht)
@@ -1815,7 +1815,7 @@
     (if ($record-value? a)
         (let-values ([(rtd) ($record-rtd a)])
           (record-type-hash-procedure rtd))
-        (raise-argument-error 'record-equal-procedure "record?" a))))
+        (raise-argument-error 'record-hash-procedure "record?" a))))
 
 (define-values (record-writer)
   (letrec-values ([($writer-table) (make-eq-hashtable)]
-- 
2.43.0


From ddca581f5806c89573a1bd8b52a9c2d623175fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:22 +0000
Subject: [PATCH 48/80] fix: eval checks that its second argument is an
 environment

---
 src/core/c/eval.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 5ca31f9..b97d4c9 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -607,7 +607,12 @@ application:
         store_reg(tc, tregs, ins, minim_cadr(ins), tc_tenv(tc));
     } else if (ty == set_tenv_symbol) {
         // (set-tenv <src reg>)
-        tc_tenv(tc) = load_reg(tc, tregs, ins, minim_cadr(ins));
+        v0 = load_reg(tc, tregs, ins, minim_cadr(ins));
+        if (!minim_top_envp(v0)) {
+            bad_type_exn("eval", "environment?", v0);
+        }
+
+        tc_tenv(tc) = v0;
     } else if (ty == do_apply_symbol) {
         // do-apply
         do_apply(tc);
-- 
2.43.0


From e53c248ab5b4238a5c221f963a35cbbc5278a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:53 +0000
Subject: [PATCH 49/80] fix: hashtable-update! keeps changes its updater makes
 to the table

The bucket store was fetched before calling the updater and the default,
so a resize during the call lost the new entry, and an updater that
inserted or deleted the same key duplicated or lost it.
---
 src/core/s/prelude.min | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 3327b7b..27cbda1 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1657,13 +1657,10 @@
        (letrec-values ([(h) (do-hash (hashtable-hash-proc ht) k)]
                        [(cell) (1/hashtable-cell-ref ht h k)])
          (if cell
-             (set-cdr! cell (updater ($cdr cell)))
-             (let-values ([(store) ($hashtable-store ht)]
-                          [(cell) (cons k (if (procedure? default)
-                                              (updater (default))
-                                              (updater default)))])
-               ($hashtable-set! store h (cons cell ($hashtable-ref store h)))
-               (incr-size! ht store)))))]
+             (1/hashtable-set! ht k (updater ($cdr cell)))
+             (1/hashtable-set! ht k (updater (if (procedure? default)
+                                                 (default)
+                                                 default))))))]
 
     [(no-key!)
      (lambda (who ht k)
-- 
2.43.0


From 230f1f772c151fccb0c4968ff7358422046583b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:52 +0000
Subject: [PATCH 50/80] fix: the module REPL evaluates in the module's own
 environment

---
 src/boot/s/boot.min    | 2 +-
 src/library/module.min | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 08c26a0..a7634ca 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -135,5 +135,5 @@
 (define-values (read/module) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) ($load-module path #f #f))))
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
-(define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
+(define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
 (define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9)) ((i) (char->integer c))) (<= 0-char i 9-char)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/module.min b/src/library/module.min
index a99ca91..9aa412e 100644
--- a/src/library/module.min
+++ b/src/library/module.min
@@ -256,7 +256,7 @@
   (define xforms (second internals))
   (define scope (sixth internals))
   ;; REPL
-  ($repl (copy-environment (car envs) #f)
-         (copy-environment (cdr envs))
+  ($repl (copy-environment (cdr envs))
+         (copy-environment (car envs) #f)
          xforms
          scope))
-- 
2.43.0


From 711582b3e8f32bffbef6664b26e8457982ce8969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:12 +0000
Subject: [PATCH 51/80] fix: expand keeps every form of a begin

---
 src/boot/s/boot.min      | 2 +-
 src/library/expander.min | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index a7634ca..cdcbcef 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -121,7 +121,7 @@
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
 (define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) (letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) (rec (syntax->datum formals))))) ((check/expr!) (lambda (expr0 scope) (letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values))) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) (loop expr0)))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
 (define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) (letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) (loop (car exprs) (cdr exprs) (quote ()))))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) (letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) (letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) (letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) (bind-xforms binding-ids results xforms)))))))) (rec (syntax->list (cadr form)) xforms)))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) (loop expr))))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) (letrec-values (((loop) (lambda (exprs) (if (null? exprs) null (letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) (letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) (loop xforms-in-scope (quote ())))) (values)))) (rec (cdr ids) (cdr results)))))))) (rec ids results)))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) (with-scope exprs xforms)))))) (loop exprs)))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) (letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) (loop exprs null)))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
-(define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (values (car exprs*) xforms*)))))
+(define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (if (null? (cdr exprs*)) (values (car exprs*) xforms*) (values (datum->syntax (cons (quote-syntax begin) exprs*)) xforms*))))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
 (define-values ($module-envs) (make-hashtable))
diff --git a/src/library/expander.min b/src/library/expander.min
index db46607..8a10050 100644
--- a/src/library/expander.min
+++ b/src/library/expander.min
@@ -754,4 +754,5 @@
 (define (expand expr env xforms scope)
   (define-values (exprs* xforms*) (expand/module #f (list expr) xforms env scope))
   (cond [(null? exprs*) (values (quote-syntax (void)) xforms*)]
-        [else (values (car exprs*) xforms*)]))
+        [(null? (cdr exprs*)) (values (car exprs*) xforms*)]
+        [else (values (datum->syntax (cons (quote-syntax begin) exprs*)) xforms*)]))
-- 
2.43.0


From 739bd13aed7f81a6ac0a116b8df7351db072696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:10 +0000
Subject: [PATCH 52/80] fix: the initial values of a named let are outside the
 scope of its name

---
 src/boot/s/boot.min         | 84 ++++++++++++++++++-------------------
 src/library/private/let.min | 11 +++--
 2 files changed, 49 insertions(+), 46 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index cdcbcef..a574daf 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -1,28 +1,28 @@
-(define-values (cons*) (lambda (x . xs) (letrec-values (((loop) (lambda (x xs) (if (null? xs) x (cons x (loop (car xs) (cdr xs))))))) (loop x xs))))
+(define-values (cons*) (lambda (x . xs) ((letrec-values (((loop) (lambda (x xs) (if (null? xs) x (cons x (loop (car xs) (cdr xs))))))) loop) x xs)))
 (define-values (first) (lambda (xs) (if (list? xs) (car xs) (raise-argument-error (quote first) "list?" xs))))
-(define-values (second) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote second) "list contains too few elements: ~a" lst))))) (loop lst 2)) (raise-argument-error (quote second) "list?" lst))))
-(define-values (third) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote third) "list contains too few elements: ~a" lst))))) (loop lst 3)) (raise-argument-error (quote third) "list?" lst))))
-(define-values (fourth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fourth) "list contains too few elements: ~a" lst))))) (loop lst 4)) (raise-argument-error (quote fourth) "list?" lst))))
-(define-values (fifth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fifth) "list contains too few elements: ~a" lst))))) (loop lst 5)) (raise-argument-error (quote fifth) "list?" lst))))
-(define-values (sixth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote sixth) "list contains too few elements: ~a" lst))))) (loop lst 6)) (raise-argument-error (quote sixth) "list?" lst))))
-(define-values (seventh) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote seventh) "list contains too few elements: ~a" lst))))) (loop lst 7)) (raise-argument-error (quote seventh) "list?" lst))))
-(define-values (eighth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote eighth) "list contains too few elements: ~a" lst))))) (loop lst 8)) (raise-argument-error (quote eighth) "list?" lst))))
-(define-values (ninth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote ninth) "list contains too few elements: ~a" lst))))) (loop lst 9)) (raise-argument-error (quote ninth) "list?" lst))))
-(define-values (tenth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote tenth) "list contains too few elements: ~a" lst))))) (loop lst 10)) (raise-argument-error (quote tenth) "list?" lst))))
-(define-values (list-ref) (lambda (lst k) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-ref) "non-negative-integer?" k))) (letrec-values (((loop) (lambda (xs i) (if (null? xs) (errorf (quote list-ref) "index out of bounds ~a for ~a" k lst) (if (= i k) (car xs) (loop (cdr xs) (+ i 1))))))) (loop lst 0))))
-(define-values (member) (lambda (k xs) (letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (pair? xs) (if (equal? (car xs) k) (car xs) (loop (cdr xs))) (raise-argument-error (quote member) "list?" xs)))))) (loop xs))))
-(define-values (remove) (lambda (k xs) (letrec-values (((loop) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) k) (loop (cdr xs)) (cons (car xs) (loop (cdr xs)))) (raise-argument-error (quote remove) "list?" xs)))))) (loop xs))))
-(define-values (remove*) (lambda (ks xs) (if (list? ks) (void) (let-values () (raise-argument-error (quote remove*) "list?" ks))) (letrec-values (((loop) (lambda (ks xs) (if (null? ks) xs (if (null? xs) (quote ()) (loop (cdr ks) (letrec-values (((loop2) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) (car ks)) (loop2 (cdr xs)) (cons (car xs) (loop2 (cdr xs)))) (raise-argument-error (quote remove*) "list?" xs)))))) (loop2 xs)))))))) (loop ks xs))))
-(define-values (filter) (lambda (f lst) (letrec-values (((loop) (lambda (xs acc) (if (null? xs) (reverse acc) (if (pair? xs) (if (f (car xs)) (loop (cdr xs) (cons (car xs) acc)) (loop (cdr xs) acc)) (raise-argument-error (quote filter) "list?" lst)))))) (loop lst (quote ())))))
-(define-values (foldl) (lambda (f acc lst) (letrec-values (((loop) (lambda (xs acc) (if (null? xs) acc (if (pair? xs) (loop (cdr xs) (f acc (car xs))) (raise-argument-error (quote foldl) "list?" lst)))))) (loop lst acc))))
-(define-values (foldr) (lambda (f acc lst) (letrec-values (((loop) (lambda (xs) (if (null? xs) acc (if (pair? xs) (f (loop (cdr xs)) (car xs)) (raise-argument-error (quote foldr) "list?" lst)))))) (loop lst))))
-(define-values (assoc) (lambda (k lst) (letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (not (pair? xs)) (raise-argument-error (quote assoc) "list?" lst) (if (not (pair? (car xs))) (raise-argument-error (quote assoc) "list?" lst) (if (equal? k (caar xs)) (car xs) (loop (cdr xs))))))))) (loop lst))))
-(define-values (index-of) (lambda (k lst) (letrec-values (((loop) (lambda (lst i) (if (null? lst) #f (if (equal? k (car lst)) i (loop (cdr lst) (+ i 1))))))) (loop lst 0))))
-(define-values (list-set) (lambda (lst k v) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-set) "non-negative-integer?" k))) (letrec-values (((loop) (lambda (xs i xs*) (if (null? xs) (errorf (quote list-set) "index out of bounds ~a for ~a" k lst) (if (= i k) (append (reverse xs*) (cons v (cdr xs))) (if (pair? xs) (loop (cdr xs) (+ i 1) (cons (car xs) xs*)) (raise-argument-error (quote list-set) "list?" lst))))))) (loop lst 0 (quote ())))))
+(define-values (second) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote second) "list contains too few elements: ~a" lst))))) loop) lst 2) (raise-argument-error (quote second) "list?" lst))))
+(define-values (third) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote third) "list contains too few elements: ~a" lst))))) loop) lst 3) (raise-argument-error (quote third) "list?" lst))))
+(define-values (fourth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fourth) "list contains too few elements: ~a" lst))))) loop) lst 4) (raise-argument-error (quote fourth) "list?" lst))))
+(define-values (fifth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fifth) "list contains too few elements: ~a" lst))))) loop) lst 5) (raise-argument-error (quote fifth) "list?" lst))))
+(define-values (sixth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote sixth) "list contains too few elements: ~a" lst))))) loop) lst 6) (raise-argument-error (quote sixth) "list?" lst))))
+(define-values (seventh) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote seventh) "list contains too few elements: ~a" lst))))) loop) lst 7) (raise-argument-error (quote seventh) "list?" lst))))
+(define-values (eighth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote eighth) "list contains too few elements: ~a" lst))))) loop) lst 8) (raise-argument-error (quote eighth) "list?" lst))))
+(define-values (ninth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote ninth) "list contains too few elements: ~a" lst))))) loop) lst 9) (raise-argument-error (quote ninth) "list?" lst))))
+(define-values (tenth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote tenth) "list contains too few elements: ~a" lst))))) loop) lst 10) (raise-argument-error (quote tenth) "list?" lst))))
+(define-values (list-ref) (lambda (lst k) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-ref) "non-negative-integer?" k))) ((letrec-values (((loop) (lambda (xs i) (if (null? xs) (errorf (quote list-ref) "index out of bounds ~a for ~a" k lst) (if (= i k) (car xs) (loop (cdr xs) (+ i 1))))))) loop) lst 0)))
+(define-values (member) (lambda (k xs) ((letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (pair? xs) (if (equal? (car xs) k) (car xs) (loop (cdr xs))) (raise-argument-error (quote member) "list?" xs)))))) loop) xs)))
+(define-values (remove) (lambda (k xs) ((letrec-values (((loop) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) k) (loop (cdr xs)) (cons (car xs) (loop (cdr xs)))) (raise-argument-error (quote remove) "list?" xs)))))) loop) xs)))
+(define-values (remove*) (lambda (ks xs) (if (list? ks) (void) (let-values () (raise-argument-error (quote remove*) "list?" ks))) ((letrec-values (((loop) (lambda (ks xs) (if (null? ks) xs (if (null? xs) (quote ()) (loop (cdr ks) ((letrec-values (((loop2) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) (car ks)) (loop2 (cdr xs)) (cons (car xs) (loop2 (cdr xs)))) (raise-argument-error (quote remove*) "list?" xs)))))) loop2) xs))))))) loop) ks xs)))
+(define-values (filter) (lambda (f lst) ((letrec-values (((loop) (lambda (xs acc) (if (null? xs) (reverse acc) (if (pair? xs) (if (f (car xs)) (loop (cdr xs) (cons (car xs) acc)) (loop (cdr xs) acc)) (raise-argument-error (quote filter) "list?" lst)))))) loop) lst (quote ()))))
+(define-values (foldl) (lambda (f acc lst) ((letrec-values (((loop) (lambda (xs acc) (if (null? xs) acc (if (pair? xs) (loop (cdr xs) (f acc (car xs))) (raise-argument-error (quote foldl) "list?" lst)))))) loop) lst acc)))
+(define-values (foldr) (lambda (f acc lst) ((letrec-values (((loop) (lambda (xs) (if (null? xs) acc (if (pair? xs) (f (loop (cdr xs)) (car xs)) (raise-argument-error (quote foldr) "list?" lst)))))) loop) lst)))
+(define-values (assoc) (lambda (k lst) ((letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (not (pair? xs)) (raise-argument-error (quote assoc) "list?" lst) (if (not (pair? (car xs))) (raise-argument-error (quote assoc) "list?" lst) (if (equal? k (caar xs)) (car xs) (loop (cdr xs))))))))) loop) lst)))
+(define-values (index-of) (lambda (k lst) ((letrec-values (((loop) (lambda (lst i) (if (null? lst) #f (if (equal? k (car lst)) i (loop (cdr lst) (+ i 1))))))) loop) lst 0)))
+(define-values (list-set) (lambda (lst k v) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-set) "non-negative-integer?" k))) ((letrec-values (((loop) (lambda (xs i xs*) (if (null? xs) (errorf (quote list-set) "index out of bounds ~a for ~a" k lst) (if (= i k) (append (reverse xs*) (cons v (cdr xs))) (if (pair? xs) (loop (cdr xs) (+ i 1) (cons (car xs) xs*)) (raise-argument-error (quote list-set) "list?" lst))))))) loop) lst 0 (quote ()))))
 (define-values (is-absolute-path?) (lambda (path) (if (> (string-length path) 0) (eq? (string-ref path 0) #\/) #f)))
-(define-values (build-path) (lambda (base . subpaths) (letrec-values (((string-terminates-with-/?) (lambda (str) (letrec-values (((len) (string-length str))) (eq? (string-ref str (- len 1)) #\/)))) ((paths) (letrec-values (((loop) (lambda (paths accum) (if (null? paths) (reverse accum) (if (= (string-length (car paths)) 0) (loop (cdr paths) accum) (if (string-terminates-with-/? (car accum)) (loop (cdr paths) (cons (car paths) accum)) (loop (cdr paths) (cons (car paths) (cons "/" accum))))))))) (loop subpaths (list base))))) (apply string-append paths))))
+(define-values (build-path) (lambda (base . subpaths) (letrec-values (((string-terminates-with-/?) (lambda (str) (letrec-values (((len) (string-length str))) (eq? (string-ref str (- len 1)) #\/)))) ((paths) ((letrec-values (((loop) (lambda (paths accum) (if (null? paths) (reverse accum) (if (= (string-length (car paths)) 0) (loop (cdr paths) accum) (if (string-terminates-with-/? (car accum)) (loop (cdr paths) (cons (car paths) accum)) (loop (cdr paths) (cons (car paths) (cons "/" accum))))))))) loop) subpaths (list base)))) (apply string-append paths))))
 (define-values (split-path) (lambda (path) (if (string? path) (void) (let-values () (raise-argument-error (quote split-path) "string?" path))) (letrec-values (((path-elems) (reverse (path->list path)))) (if (pair? (cdr path-elems)) (let-values () (letrec-values (((end) (car path-elems)) ((rest) (cdr path-elems))) (cons (apply build-path (reverse rest)) end))) (cons #f (car path-elems))))))
-(define-values (path->list) (lambda (path) (if (string? path) (void) (let-values () (raise-argument-error (quote path->list) "string?" path))) (letrec-values (((loop) (lambda (path accum) (if (= (string-length path) 0) (reverse accum) (let-values () (letrec-values (((len) (string-length path))) (letrec-values (((loop2) (lambda (i) (if (= i len) (loop "" (cons path accum)) (if (eq? (string-ref path i) #\/) (if (= i 0) (loop (substring path 1 len) (cons "/" accum)) (let-values () (letrec-values (((elem) (substring path 0 i)) ((rest) (substring path (+ i 1) len))) (loop rest (cons elem accum))))) (loop2 (+ i 1))))))) (loop2 0)))))))) (loop path (quote ())))))
+(define-values (path->list) (lambda (path) (if (string? path) (void) (let-values () (raise-argument-error (quote path->list) "string?" path))) ((letrec-values (((loop) (lambda (path accum) (if (= (string-length path) 0) (reverse accum) (let-values () (letrec-values (((len) (string-length path))) ((letrec-values (((loop2) (lambda (i) (if (= i len) (loop "" (cons path accum)) (if (eq? (string-ref path i) #\/) (if (= i 0) (loop (substring path 1 len) (cons "/" accum)) (let-values () (letrec-values (((elem) (substring path 0 i)) ((rest) (substring path (+ i 1) len))) (loop rest (cons elem accum))))) (loop2 (+ i 1))))))) loop2) 0))))))) loop) path (quote ()))))
 (define-values ($generics-type) (make-record-type-descriptor (quote generics) #f #f #f #f (quote #((immutable name) (immutable methods)))))
 (define-values ($generics-type?) (record-predicate $generics-type))
 (define-values ($make-generics-type) (record-constructor $generics-type))
@@ -32,7 +32,7 @@
 (define-values (non-rtd-error) (lambda (who v) (raise-argument-error who "record-type-descriptor?" v)))
 (define-values ($generics-type-method-names) (lambda (generics) (if ($generics-type? generics) (void) (let-values () (non-generics-type-error (quote $generics-type-method-names) generics))) (map car ($generics-type-methods generics))))
 (define-values ($record-generics) (make-hashtable))
-(define-values (record-type-add-generic!) (lambda (rtd generic impls) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote record-type-add-generics!) generic))) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error (quote record-type-add-generics!) rtd))) (if (if (list? impls) (andmap procedure? impls) #f) (void) (let-values () (raise-argument-error (quote record-type-add-generics!) "list of procedures" impls))) (letrec-values (((names) ($generics-type-method-names generic)) (() (let-values () (if (= (length names) (length impls)) (void) (let-values () (error (quote record-type-add-generics!) "number of procedures does not match interface" (format "expected: ~a" (length names)) (format "got: ~a" (length impls))))) (values))) (() (let-values () (for-each (lambda (entry impl) (letrec-values (((id) (car entry)) ((formals) (cdr entry)) ((expected-arity) (letrec-values (((loop) (lambda (formals i) (if (null? formals) i (if (symbol? formals) (cons i #f) (loop (cdr formals) (+ i 1))))))) (loop formals 0))) ((arity) (procedure-arity impl))) (if (equal? arity expected-arity) (void) (let-values () (error (quote record-type-add-generics!) "method implementation does not match formals" (format "method definition: ~a ~a" id formals) (format "actual arity: ~a" arity)))))) ($generics-type-methods generic) impls) (values)))) (hashtable-set! $record-generics rtd (if (hashtable-contains? $record-generics rtd) (cons (cons generic impls) (hashtable-ref $record-generics rtd)) (list (cons generic impls)))))))
+(define-values (record-type-add-generic!) (lambda (rtd generic impls) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote record-type-add-generics!) generic))) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error (quote record-type-add-generics!) rtd))) (if (if (list? impls) (andmap procedure? impls) #f) (void) (let-values () (raise-argument-error (quote record-type-add-generics!) "list of procedures" impls))) (letrec-values (((names) ($generics-type-method-names generic)) (() (let-values () (if (= (length names) (length impls)) (void) (let-values () (error (quote record-type-add-generics!) "number of procedures does not match interface" (format "expected: ~a" (length names)) (format "got: ~a" (length impls))))) (values))) (() (let-values () (for-each (lambda (entry impl) (letrec-values (((id) (car entry)) ((formals) (cdr entry)) ((expected-arity) ((letrec-values (((loop) (lambda (formals i) (if (null? formals) i (if (symbol? formals) (cons i #f) (loop (cdr formals) (+ i 1))))))) loop) formals 0)) ((arity) (procedure-arity impl))) (if (equal? arity expected-arity) (void) (let-values () (error (quote record-type-add-generics!) "method implementation does not match formals" (format "method definition: ~a ~a" id formals) (format "actual arity: ~a" arity)))))) ($generics-type-methods generic) impls) (values)))) (hashtable-set! $record-generics rtd (if (hashtable-contains? $record-generics rtd) (cons (cons generic impls) (hashtable-ref $record-generics rtd)) (list (cons generic impls)))))))
 (define-values (generics-accessor) (lambda (generic name) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote generics-accessor) generic))) (if (symbol? name) (void) (let-values () (raise-argument-error (quote generics-accessor) "symbol?" generic))) (letrec-values (((idx) (index-of name ($generics-type-method-names generic))) (() (let-values () (if idx (void) (let-values () (error (quote generics-accessor) "method name not associated with generics interface" name))) (values)))) (lambda (rtd) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error #f rtd))) (letrec-values (((rtd-generics) (hashtable-ref $record-generics rtd (quote ()))) ((maybe-entry) (assoc generic rtd-generics))) (if maybe-entry (list-ref (cdr maybe-entry) idx) (error (quote generics-accessor) "generic not associated with record type" ($generics-type-name generic) rtd)))))))
 (define-values (generic-instance?) (lambda (generic) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote generic-instance?) generic))) (lambda (rtd) (if (record-type-descriptor? rtd) (let-values (((generics) (hashtable-ref $record-generics rtd #f))) (if generics (assoc generic generics) #f)) #f))))
 (define-values (gen:equal+hash gen:equal+hash?) (let-values (((:gen) ($make-generics-type (quote equal+hash) (quote ((equal-proc a b rec-equal?) (hash-proc a rec-hash)))))) (values :gen (generic-instance? :gen))))
@@ -50,16 +50,16 @@
 (define-values (set-remove!) (lambda (st v) (if (set? st) (void) (let-values () (not-set-error (quote set-remove!) st))) (hashtable-delete! (set-store st) v)))
 (define-values (set-clear!) (lambda (st) (if (set? st) (void) (let-values () (not-set-error (quote set-clear!) st))) (hashtable-clear! (set-store st))))
 (define-values (set->list) (lambda (st) (if (set? st) (void) (let-values () (not-set-error (quote set->list) st))) (vector->list (hashtable-keys (set-store st)))))
-(define-values (subset?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote subset?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote subset?) st2))) (letrec-values (((loop) (lambda (elts) (if (null? elts) #t (if (set-member? st2 (car elts)) (loop (cdr elts)) #f))))) (loop (set->list st)))))
+(define-values (subset?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote subset?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote subset?) st2))) ((letrec-values (((loop) (lambda (elts) (if (null? elts) #t (if (set-member? st2 (car elts)) (loop (cdr elts)) #f))))) loop) (set->list st))))
 (define-values (proper-subset?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote proper-subset?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote proper-subset?) st2))) (if (subset? st st2) (not (subset? st2 st)) #f)))
 (define-values (set=?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote set=?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote set=?) st2))) (if (subset? st st2) (subset? st2 st) #f)))
 (define-values (set-map) (lambda (proc st) (if (set? st) (void) (let-values () (not-set-error (quote set-map) st))) (map proc (set->list st))))
 (define-values (set-for-each) (lambda (proc st) (if (set? st) (void) (let-values () (not-set-error (quote set-for-each) st))) (for-each proc (set->list st))))
 (define-values (set-union) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-union) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((u) (make-set)) (() (let-values () (for-each (lambda (s) (for-each (lambda (x) (set-add! u x)) (set->list s))) ss) (values)))) u))))))
-(define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) (letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) (loop (cdr ss) i))))))))
-(define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) (loop sts)))))
-(define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) (loop sts)))))
-(define-values (substring) (lambda (str start end) (letrec-values (((len) (string-length str)) (() (let-values () (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (values))) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 end))) (values))) ((sstr) (make-string (- end start)))) (letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) (loop 0 start)))))
+(define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) ((letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) loop) (cdr ss) i)))))))
+(define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) ((letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) loop) sts))))
+(define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) ((letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) loop) sts))))
+(define-values (substring) (lambda (str start end) (letrec-values (((len) (string-length str)) (() (let-values () (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (values))) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 end))) (values))) ((sstr) (make-string (- end start)))) ((letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) loop) 0 start))))
 (define-values (identifier?) (lambda (t) (if (syntax? t) (symbol? (syntax-e t)) #f)))
 (define-values (free-identifier=?) (lambda (a b) (if (not (identifier? a)) (raise-argument-error (quote free-identifier=?) "identifier?" a) (if (not (identifier? b)) (raise-argument-error (quote free-identifier=?) "identifier?" b) (eq? (syntax-e a) (syntax-e b))))))
 (define-values (stx-null?) (lambda (t) (if (null? t) #t (if (syntax? t) (null? (syntax-e t)) #f))))
@@ -85,12 +85,12 @@
 (define-values (make-base-scope) (lambda () (letrec-values (((bound) (make-set)) (() (let-values () (for-each (lambda (n) (set-add! bound n)) (environment-symbols $base-env)) (values)))) (make-scope bound #f))))
 (define-values (scope-extend) (lambda (prev) (make-scope (make-set) prev)))
 (define-values (scope-add!) (lambda (scope name) (set-add! (scope-bound scope) name)))
-(define-values (scope-names) (lambda (scope) (letrec-values (((names) (make-set)) (() (let-values () (letrec-values (((loop) (lambda (scope) (if scope (let-values () (for-each (lambda (n) (set-add! names n)) (set->list (scope-bound scope))) (loop (scope-prev scope))) (void))))) (loop scope)) (values)))) names)))
-(define-values (scope-contains?) (lambda (scope name) (letrec-values (((loop) (lambda (scope) (if (not scope) #f (if (set-member? (scope-bound scope) name) #t (loop (scope-prev scope))))))) (loop scope))))
+(define-values (scope-names) (lambda (scope) (letrec-values (((names) (make-set)) (() (let-values () ((letrec-values (((loop) (lambda (scope) (if scope (let-values () (for-each (lambda (n) (set-add! names n)) (set->list (scope-bound scope))) (loop (scope-prev scope))) (void))))) loop) scope) (values)))) names)))
+(define-values (scope-contains?) (lambda (scope name) ((letrec-values (((loop) (lambda (scope) (if (not scope) #f (if (set-member? (scope-bound scope) name) #t (loop (scope-prev scope))))))) loop) scope)))
 (define-values ($base-env) (make-base-environment))
 (define-values ($base-scope) (make-base-scope))
 (define-values (lookup-xform) (lambda (maybe-id xforms) (if (identifier? maybe-id) (let-values (((entry) (assoc (syntax-e maybe-id) xforms))) (if entry (cdr entry) #f)) #f)))
-(define-values (merge-xforms) (lambda (xforms new-xforms) (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? new-xforms) xforms (if (assoc (caar new-xforms) xforms) (loop xforms (cdr new-xforms)) (loop (cons (car new-xforms) xforms) (cdr new-xforms))))))) (loop xforms new-xforms))))
+(define-values (merge-xforms) (lambda (xforms new-xforms) ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? new-xforms) xforms (if (assoc (caar new-xforms) xforms) (loop xforms (cdr new-xforms)) (loop (cons (car new-xforms) xforms) (cdr new-xforms))))))) loop) xforms new-xforms)))
 (define-values (_-form?) (lambda (form-name) (lambda (expr) (if (stx-pair? expr) (let-values (((head) (stx-car expr))) (if (identifier? head) (eq? (syntax-e head) form-name) #f)) #f))))
 (define-values (define-values-form?) (_-form? (quote define-values)))
 (define-values (define-syntaxes-form?) (_-form? (quote define-syntaxes)))
@@ -105,12 +105,12 @@
 (define-values (begin-form?) (_-form? (quote begin)))
 (define-values (if-form?) (_-form? (quote if)))
 (define-values (stx-self-evaluating?) (lambda (stx) (letrec-values (((datum) (syntax-e stx))) (let-values (((or-t) (boolean? datum))) (if or-t or-t (let-values (((or-t) (number? datum))) (if or-t or-t (let-values (((or-t) (string? datum))) (if or-t or-t (let-values (((or-t) (vector? datum))) (if or-t or-t (let-values (((or-t) (box? datum))) (if or-t or-t (char? datum))))))))))))))
-(define-values (duplicate-identifier) (lambda (ids new-ids) (letrec-values (((new-unique) (make-set))) (letrec-values (((loop) (lambda (new-ids) (if (null? new-ids) #f (if (set-member? ids (car new-ids)) (car new-ids) (if (set-member? new-unique (car new-ids)) (car new-ids) (let-values () (set-add! new-unique (car new-ids)) (loop (cdr new-ids))))))))) (loop new-ids)))))
+(define-values (duplicate-identifier) (lambda (ids new-ids) (letrec-values (((new-unique) (make-set))) ((letrec-values (((loop) (lambda (new-ids) (if (null? new-ids) #f (if (set-member? ids (car new-ids)) (car new-ids) (if (set-member? new-unique (car new-ids)) (car new-ids) (let-values () (set-add! new-unique (car new-ids)) (loop (cdr new-ids))))))))) loop) new-ids))))
 (define-values (check-define-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((ids) (syntax->list (stx-car rib0))) ((rib1) (stx-cdr rib0)) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error name "expected an expression after identifiers" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
-(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (null? bind-rib) (let-values () (raise-syntax-error name "missing body" form)) (void)) (values))) (() (let-values () (if (let-values (((or-t) (list? bind-rib))) (if or-t or-t (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) (letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) (loop bindings)))))
+(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (null? bind-rib) (let-values () (raise-syntax-error name "missing body" form)) (void)) (values))) (() (let-values () (if (let-values (((or-t) (list? bind-rib))) (if or-t or-t (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) ((letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) loop) bindings))))
 (define-values (check-set!-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error (quote set!) "bad syntax" form)) (void)) (values))) ((id) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (identifier? id) (void) (let-values () (raise-syntax-error (quote set!) "not identifier" form id))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error (quote set!) "expected an expression after identifier" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error (quote set!) "too many expressions" form))))))
 (define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t) (list? rib2))) (if or-t or-t (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
-(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) (letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-null? clause) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t) (list? rib2))) (if or-t or-t (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) (loop clauses)))))
+(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) ((letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-null? clause) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t) (list? rib2))) (if or-t or-t (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) loop) clauses))))
 (define-values (check-begin-form!) (lambda (form) (if (syntax->list form) (void) (let-values () (raise-syntax-error (quote begin) "bad syntax" form)))))
 (define-values (check-1ary-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "expected an expression" form)) (void)) (values))) ((rib1) (stx-cdr rib0))) (if (stx-null? rib1) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
 (define-values (check-if-form!) (lambda (form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((cond-rib) (stx-cdr rib)) (() (let-values () (if (stx-null? cond-rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((ift-rib) (stx-cdr cond-rib)) (() (let-values () (if (stx-null? ift-rib) (let-values () (raise-syntax-error (quote if) "missing an \"else\" statement" form)) (void)) (values))) ((iff-rib) (stx-cdr ift-rib))) (if (stx-null? iff-rib) (void) (let-values () (raise-syntax-error (quote if) "too many expressions" form))))))
@@ -119,21 +119,21 @@
 (define-values ($base-stx-env) (lambda (env) (let-values (((env) (copy-environment env #f))) (environment-set! env (quote get-pattern-variable) (lambda (k) (if (symbol? k) (letrec-values (((loop) (lambda (assoc) (if (null? assoc) #f (if (eq? (caar assoc) k) (cadar assoc) (loop (cdr assoc))))))) (loop $expander-pattern-vars)) (raise-argument-error (quote get-pattern-variable) "symbol?" k)))) env)))
 (define-values (define-syntaxes/values-identifiers) (lambda (form) (map syntax-e (syntax->list (stx-car (stx-cdr form))))))
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
-(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) (letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) (rec (syntax->datum formals))))) ((check/expr!) (lambda (expr0 scope) (letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values))) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) (loop expr0)))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
-(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) (letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) (loop (car exprs) (cdr exprs) (quote ()))))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) (letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) (letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) (letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) (bind-xforms binding-ids results xforms)))))))) (rec (syntax->list (cadr form)) xforms)))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) (loop expr))))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) (letrec-values (((loop) (lambda (exprs) (if (null? exprs) null (letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) (letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) (loop xforms-in-scope (quote ())))) (values)))) (rec (cdr ids) (cdr results)))))))) (rec ids results)))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) (with-scope exprs xforms)))))) (loop exprs)))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) (letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) (loop exprs null)))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
+(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) ((letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) rec) (syntax->datum formals)))) ((check/expr!) (lambda (expr0 scope) ((letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values))) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) loop) expr0))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
+(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) loop) (car exprs) (cdr exprs) (quote ())))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) ((letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) ((letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) ((letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) bind-xforms) binding-ids results xforms))))))) rec) (syntax->list (cadr form)) xforms))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) loop) expr)))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) ((letrec-values (((loop) (lambda (exprs) (if (null? exprs) null ((letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) ((letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) loop) xforms-in-scope (quote ()))) (values)))) (rec (cdr ids) (cdr results)))))))) rec) ids results))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) with-scope) exprs xforms))))) loop) exprs))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) loop) exprs null))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
 (define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (if (null? (cdr exprs*)) (values (car exprs*) xforms*) (values (datum->syntax (cons (quote-syntax begin) exprs*)) xforms*))))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
 (define-values ($module-envs) (make-hashtable))
 (define-values ($module-internals) (make-hashtable))
-(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) (letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) (loop (quote ())))))) (($import) (lambda (exprs) (letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) (letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports))) ((path) (build-path new-cwd maybe-import))) (if (string? maybe-import) (let-values () ($load-or-import path print-handler result-handler) (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) (loop2 (cdr expr))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) (letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export))) ((path) (build-path new-cwd module-name))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member path imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) (loop2 (cdr expr))) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) (loop exprs (quote ()))))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
-(define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) (letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) (loop imports)))))
-(define-values ($eval-exprs) (lambda (exprs env print-handler) (letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results (letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) (loop2 results (void))))))))))) (loop exprs (void)))))
-(define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () (letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) (loop exports)) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
-(define-values ($repl) (lambda (env stx-env xforms scope) (letrec-values (((loop) (lambda (xforms) (display "> ") (letrec-values (((expr) (read)) (() (let-values () (if (eof-object? expr) (let-values () (exit)) (void)) (values))) ((expr* xforms*) (expand expr stx-env xforms scope)) (() (let-values () (call-with-values (lambda () (eval (syntax->datum expr*) env)) (lambda results (for-each (lambda (result) (if (void? result) (void) (let-values () (writeln result)))) results))) (values)))) (loop xforms*))))) (loop xforms))))
+(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports))) ((path) (build-path new-cwd maybe-import))) (if (string? maybe-import) (let-values () ($load-or-import path print-handler result-handler) (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export))) ((path) (build-path new-cwd module-name))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member path imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
+(define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) ((letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) loop) imports))))
+(define-values ($eval-exprs) (lambda (exprs env print-handler) ((letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results ((letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) loop2) results (void)))))))))) loop) exprs (void))))
+(define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () ((letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) loop) exports) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
+(define-values ($repl) (lambda (env stx-env xforms scope) ((letrec-values (((loop) (lambda (xforms) (display "> ") (letrec-values (((expr) (read)) (() (let-values () (if (eof-object? expr) (let-values () (exit)) (void)) (values))) ((expr* xforms*) (expand expr stx-env xforms scope)) (() (let-values () (call-with-values (lambda () (eval (syntax->datum expr*) env)) (lambda results (for-each (lambda (result) (if (void? result) (void) (let-values () (writeln result)))) results))) (values)))) (loop xforms*))))) loop) xforms)))
 (define-values ($load-or-import) (lambda (name print-handler result-handler) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler))))))
 (define-values (read/module) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) ($load-module path #f #f))))
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9)) ((i) (char->integer c))) (<= 0-char i 9-char)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9)) ((i) (char->integer c))) (<= 0-char i 9-char)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) ((letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) loop) car))))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/private/let.min b/src/library/private/let.min
index b01bfe8..eceadcc 100644
--- a/src/library/private/let.min
+++ b/src/library/private/let.min
@@ -51,11 +51,14 @@
                                              (datum->syntax
                                                (cons (quote-syntax lambda)
                                                  (cons vars e)))])
+                                 ; the initial values are outside the scope of `id`
                                  (datum->syntax
-                                   (list
-                                     (quote-syntax letrec-values)
-                                     (list (list (list id) fn-stx))
-                                     (cons id vals)))))))]
+                                   (cons
+                                     (list
+                                       (quote-syntax letrec-values)
+                                       (list (list (list id) fn-stx))
+                                       id)
+                                     vals))))))]
                       [else
                        ; let form
                        (if (not (stx-list? stx))
-- 
2.43.0


From 893d9d28cb8786a918cbc72f0a5290089e25bda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:53 +0000
Subject: [PATCH 53/80] fix: a wildcard in a syntax-case list pattern does not
 match a non-pair

---
 src/library/private/stxcase.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/private/stxcase.min b/src/library/private/stxcase.min
index a64fe74..2eb64b2 100644
--- a/src/library/private/stxcase.min
+++ b/src/library/private/stxcase.min
@@ -244,14 +244,14 @@
                               (list
                                 (quote-syntax if)
                                 (list
-                                  (quote-syntax stx-null/#f)
+                                  (quote-syntax stx-pair?)
                                   (quote-syntax e))
-                                #f
                                 (loop tail-pat (+ idx 1)
                                       (datum->syntax
                                         (list
                                           (quote-syntax stx-cdr)
-                                          (quote-syntax e)))))]
+                                          (quote-syntax e))))
+                                #f)]
                              [(variable? head-pat)
                               ; variable =>
                               ;  bind one variable
-- 
2.43.0


From fd0433a28620d1cab6137bdb1177f50ca6af29df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:54 +0000
Subject: [PATCH 54/80] fix: syntax-case matches vector elements after an
 ellipsis with their own patterns

---
 src/library/private/stxcase.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/private/stxcase.min b/src/library/private/stxcase.min
index 2eb64b2..3eda72e 100644
--- a/src/library/private/stxcase.min
+++ b/src/library/private/stxcase.min
@@ -494,7 +494,7 @@
                                       [else
                                        (list
                                          (quote-syntax append/#f)
-                                         (gen-match/expr (vector-ref v i)
+                                         (gen-match/expr (vector-ref v (+ before-ellipsis 1 i))
                                                          (datum->syntax
                                                            (list
                                                              (quote-syntax stx-vector-ref)
-- 
2.43.0


From a6dc92cbcc2f84c5f6debab36f3a2050adaad8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:54 +0000
Subject: [PATCH 55/80] fix: syntax-case matches data and vectors in the tail
 of a list pattern

---
 src/library/private/stxcase.min | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/library/private/stxcase.min b/src/library/private/stxcase.min
index 3eda72e..7771c19 100644
--- a/src/library/private/stxcase.min
+++ b/src/library/private/stxcase.min
@@ -177,7 +177,7 @@
                          (= (+ idx 1) before-ellipsis))
                      ; end (tail) of list => 
                      ;  match on empty list (tail)
-                     (gen-match/datum (if prop? (quote-syntax ()) pat) arg)]
+                     (gen-match/expr (if prop? (quote-syntax ()) pat) arg)]
                     [else
                      (define head-pat (stx-car pat))
                      (define tail-pat
@@ -594,7 +594,13 @@
                          (quote-syntax quote)
                          (syntax-e pattern))
                        (list
-                         (quote-syntax syntax-e)
+                         (quote-syntax if)
+                         (list
+                           (quote-syntax syntax?)
+                           (quote-syntax e))
+                         (list
+                           (quote-syntax syntax-e)
+                           (quote-syntax e))
                          (quote-syntax e)))
                      (quote-syntax null)
                      #f))
-- 
2.43.0


From 753a6772dcb09b298518a1df39635a6155254aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:02 +0000
Subject: [PATCH 56/80] fix: a syntax template may have a non-list tail after
 an ellipsis

---
 src/library/private/template-utils.min | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/library/private/template-utils.min b/src/library/private/template-utils.min
index dfc9bb7..4c5676a 100644
--- a/src/library/private/template-utils.min
+++ b/src/library/private/template-utils.min
@@ -326,7 +326,12 @@
       (cond
         [(< idx n) (cons (car guide) (loop (+ idx 1) (cdr guide)))]
         [(not mode) (cons arg (cdr guide))]
-        [(eq? mode 'append) (append arg (cdr guide))]
+        [(eq? mode 'append)
+         ; the rest of the guide may end in a non-list tail
+         (let loop2 ([xs arg])
+           (if (null? xs)
+               (cdr guide)
+               (cons (car xs) (loop2 (cdr xs)))))]
         [(eq? mode 'tail) arg]
         [else (error #f "unknown substitution operator" mode)])))
     
-- 
2.43.0


From d5902765404bbb8a8ee68dc6800eb4e0f04936e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 57/80] fix: the newest definition of a macro is the one in
 scope

---
 src/boot/s/boot.min      | 2 +-
 src/library/expander.min | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index a574daf..86a2dec 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -120,7 +120,7 @@
 (define-values (define-syntaxes/values-identifiers) (lambda (form) (map syntax-e (syntax->list (stx-car (stx-cdr form))))))
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
 (define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) ((letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) rec) (syntax->datum formals)))) ((check/expr!) (lambda (expr0 scope) ((letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values))) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) loop) expr0))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
-(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) loop) (car exprs) (cdr exprs) (quote ())))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) ((letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) ((letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) ((letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) bind-xforms) binding-ids results xforms))))))) rec) (syntax->list (cadr form)) xforms))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) loop) expr)))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) ((letrec-values (((loop) (lambda (exprs) (if (null? exprs) null ((letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) ((letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) loop) xforms-in-scope (quote ()))) (values)))) (rec (cdr ids) (cdr results)))))))) rec) ids results))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) with-scope) exprs xforms))))) loop) exprs))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) loop) exprs null))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
+(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) loop) (car exprs) (cdr exprs) (quote ())))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) ((letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) ((letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) ((letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) bind-xforms) binding-ids results xforms))))))) rec) (syntax->list (cadr form)) xforms))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) loop) expr)))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) ((letrec-values (((loop) (lambda (exprs) (if (null? exprs) null ((letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) ((letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) (reverse new-xforms) (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) loop) xforms-in-scope (quote ()))) (values)))) (rec (cdr ids) (cdr results)))))))) rec) ids results))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) with-scope) exprs xforms))))) loop) exprs))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) loop) exprs null))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
 (define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (if (null? (cdr exprs*)) (values (car exprs*) xforms*) (values (datum->syntax (cons (quote-syntax begin) exprs*)) xforms*))))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
diff --git a/src/library/expander.min b/src/library/expander.min
index 8a10050..cd452e8 100644
--- a/src/library/expander.min
+++ b/src/library/expander.min
@@ -698,7 +698,7 @@
                        (set! xforms
                              (let loop ([xforms xforms-in-scope] [new-xforms '()])
                                (cond
-                                 [(null? xforms) new-xforms]
+                                 [(null? xforms) (reverse new-xforms)]
                                  [else
                                   (define xform (first xforms))
                                   (define id (first xform))
-- 
2.43.0


From 1d02c8e31afd37fab89d9385322c6b1dece7c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:28 +0000
Subject: [PATCH 58/80] fix: definitions and begins made by an imported macro
 see the macros of its module

---
 src/boot/s/boot.min      |  2 +-
 src/library/expander.min | 42 ++++++++++++++++++++++++++--------------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 86a2dec..cea2616 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -120,7 +120,7 @@
 (define-values (define-syntaxes/values-identifiers) (lambda (form) (map syntax-e (syntax->list (stx-car (stx-cdr form))))))
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
 (define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) ((letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) rec) (syntax->datum formals)))) ((check/expr!) (lambda (expr0 scope) ((letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values))) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) loop) expr0))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
-(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) loop) (car exprs) (cdr exprs) (quote ())))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) ((letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) ((letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) ((letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) bind-xforms) binding-ids results xforms))))))) rec) (syntax->list (cadr form)) xforms))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) loop) expr)))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) ((letrec-values (((loop) (lambda (exprs) (if (null? exprs) null ((letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) ((letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) (reverse new-xforms) (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) loop) xforms-in-scope (quote ()))) (values)))) (rec (cdr ids) (cdr results)))))))) rec) ids results))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) with-scope) exprs xforms))))) loop) exprs))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) loop) exprs null))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
+(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) loop) (car exprs) (cdr exprs) (quote ())))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) ((letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (define-syntaxes-form? expr) expr (if (define-values-form? expr) (if recur-begin? expr (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t)))))) (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) ((letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) ((letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) bind-xforms) binding-ids results xforms))))))) rec) (syntax->list (cadr form)) xforms))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr)))))))))))))))))) loop) expr)))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) ((letrec-values (((loop) (lambda (exprs outer) (if (null? exprs) null (let-values (((in-scope0) (merge-xforms xforms outer))) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) ((letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs) outer) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) (reverse new-xforms) (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) loop) xforms-in-scope (quote ()))) (values)))) (rec (cdr ids) (cdr results)))))))) rec) ids results))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons (cons expr in-scope) (loop (cdr exprs) outer)))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs) outer) (append (loop forms in-scope) (loop (cdr exprs) outer))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs) outer))))))))))) loop) exprs null))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (pair? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (caar exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) (merge-xforms xforms (cdar exprs)) #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) loop) exprs null))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
 (define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (if (null? (cdr exprs*)) (values (car exprs*) xforms*) (values (datum->syntax (cons (quote-syntax begin) exprs*)) xforms*))))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
diff --git a/src/library/expander.min b/src/library/expander.min
index cd452e8..fdf5398 100644
--- a/src/library/expander.min
+++ b/src/library/expander.min
@@ -470,7 +470,7 @@
 
          (define form (syntax->list expr*))
          (define ids (second form))
-         (define value (expand/expr (third form) xforms #t))
+         (define value (third form))
          (loop (car rest) (cdr rest) (cons (cons ids value) defines))]
         [(not (null? rest))
          ; internal expression
@@ -516,10 +516,20 @@
          (define id (syntax->datum expr))
          (define maybe-xform (lookup-xform expr xforms))
          (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr)]
-        [(or (define-values-form? expr) (define-syntaxes-form? expr))
-         ; define-values/define-syntaxes form
+        [(define-syntaxes-form? expr)
          ; shouldn't be expanded in this context
          expr]
+        [(define-values-form? expr)
+         ; in a body, the value is expanded in the scope of the form
+         (cond
+           [recur-begin? expr]
+           [else
+            (check-define-syntaxes/values-form! 'define-values expr)
+            (define form (syntax->list expr))
+            (datum->syntax
+              (list (first form)
+                    (second form)
+                    (expand/expr (third form) xforms #t)))])]
         [(let-syntaxes-form? expr)
          ; let-syntaxes form
          (check-let-syntaxes/values-form! 'let-syntaxes expr)
@@ -666,11 +676,11 @@
       (define xform-ids (make-set))
       ; for each expression
       (define exprs*
-        (let loop ([exprs exprs])
+        (let loop ([exprs exprs] [outer null])
           (cond
             [(null? exprs) null]
             [else
-             (let with-scope ([exprs exprs] [in-scope0 xforms])
+             (let ([in-scope0 (merge-xforms xforms outer)])
                (define-values (expr in-scope) (expand/top-level (car exprs) in-scope0))
                (cond
                  [(define-syntaxes-form? expr)
@@ -686,7 +696,7 @@
                            "expected" (length ids) "received" (length results)))
                   (let rec ([ids ids] [results results])
                     (cond
-                      [(null? ids) (loop (cdr exprs))]
+                      [(null? ids) (loop (cdr exprs) outer)]
                       [else
                        (define id (car ids))
                        (define xform (car results))
@@ -714,31 +724,33 @@
                   (define ids (define-syntaxes/values-identifiers expr))
                   (check-duplicate-identifier! expr 'define-values define-ids ids)
                   (for-each (lambda (id) (set-add! define-ids id)) ids)
-                  (cons expr (loop (cdr exprs)))]
+                  (cons (cons expr in-scope) (loop (cdr exprs) outer))]
                  [(begin-form? expr)
                   (check-begin-form! expr)
                   (define forms (cdr (syntax->list expr)))
                   (if (null? forms)
-                      (loop (cdr exprs))
-                      (append (with-scope forms in-scope) (loop (cdr exprs))))]
+                      (loop (cdr exprs) outer)
+                      (append (loop forms in-scope) (loop (cdr exprs) outer)))]
                  [else
-                  (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))]))])))
+                  (cons (expand/expr expr in-scope #t) (loop (cdr exprs) outer))]))])))
       ; done
       (values exprs* xforms))
     
-    ; Any `define-values` form is deferred
-    ; List of Expr, List of Xform -> List of Expr
+    ; Any `define-values` form is deferred: it is paired with its scope
+    ; List of (Expr or (Expr . List of Xform)), List of Xform -> List of Expr
     (define (expand/define-values exprs xforms)
       (let loop ([exprs exprs] [exprs* null])
         (cond
           [(null? exprs) (reverse exprs*)]
-          [(define-values-form? (car exprs))
-           (define form (syntax->list (car exprs)))
+          [(pair? (car exprs))
+           (define form (syntax->list (caar exprs)))
            (define form*
              (datum->syntax
                (list (first form)
                      (second form)
-                     (expand/expr (third form) xforms #t))))
+                     (expand/expr (third form)
+                                  (merge-xforms xforms (cdar exprs))
+                                  #t))))
            (loop (cdr exprs) (cons form* exprs*))]
           [else (loop (cdr exprs) (cons (car exprs) exprs*))])))
 
-- 
2.43.0


From ee8ffd9a324027ecbd6969c1fcf7ffe12639c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:28 +0000
Subject: [PATCH 59/80] fix: pattern variables of an inner syntax-case are not
 visible outside it

---
 src/boot/s/boot.min      | 2 +-
 src/library/expander.min | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index cea2616..3986045 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -120,7 +120,7 @@
 (define-values (define-syntaxes/values-identifiers) (lambda (form) (map syntax-e (syntax->list (stx-car (stx-cdr form))))))
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
 (define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) ((letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) rec) (syntax->datum formals)))) ((check/expr!) (lambda (expr0 scope) ((letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values))) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) loop) expr0))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
-(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) loop) (car exprs) (cdr exprs) (quote ())))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) ((letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (define-syntaxes-form? expr) expr (if (define-values-form? expr) (if recur-begin? expr (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t)))))) (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) ((letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) ((letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) bind-xforms) binding-ids results xforms))))))) rec) (syntax->list (cadr form)) xforms))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr)))))))))))))))))) loop) expr)))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) ((letrec-values (((loop) (lambda (exprs outer) (if (null? exprs) null (let-values (((in-scope0) (merge-xforms xforms outer))) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) ((letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs) outer) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) (reverse new-xforms) (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) loop) xforms-in-scope (quote ()))) (values)))) (rec (cdr ids) (cdr results)))))))) rec) ids results))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons (cons expr in-scope) (loop (cdr exprs) outer)))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs) outer) (append (loop forms in-scope) (loop (cdr exprs) outer))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs) outer))))))))))) loop) exprs null))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (pair? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (caar exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) (merge-xforms xforms (cdar exprs)) #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) loop) exprs null))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
+(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) loop) (car exprs) (cdr exprs) (quote ())))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((outer-patterns) $expander-pattern-vars) ((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values))) ((expr*) (expand/expr* expr xforms recur-begin?)) (() (let-values () (set! $expander-pattern-vars outer-patterns) (values)))) expr*))) ((expand/expr*) (lambda (expr xforms recur-begin?) ((letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (define-syntaxes-form? expr) expr (if (define-values-form? expr) (if recur-begin? expr (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t)))))) (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) ((letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) ((letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) bind-xforms) binding-ids results xforms))))))) rec) (syntax->list (cadr form)) xforms))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr)))))))))))))))))) loop) expr))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) ((letrec-values (((loop) (lambda (exprs outer) (if (null? exprs) null (let-values (((in-scope0) (merge-xforms xforms outer))) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) ((letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs) outer) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) (reverse new-xforms) (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) loop) xforms-in-scope (quote ()))) (values)))) (rec (cdr ids) (cdr results)))))))) rec) ids results))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons (cons expr in-scope) (loop (cdr exprs) outer)))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs) outer) (append (loop forms in-scope) (loop (cdr exprs) outer))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs) outer))))))))))) loop) exprs null))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (pair? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (caar exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) (merge-xforms xforms (cdar exprs)) #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) loop) exprs null))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
 (define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (if (null? (cdr exprs*)) (values (car exprs*) xforms*) (values (datum->syntax (cons (quote-syntax begin) exprs*)) xforms*))))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
diff --git a/src/library/expander.min b/src/library/expander.min
index fdf5398..6b83289 100644
--- a/src/library/expander.min
+++ b/src/library/expander.min
@@ -505,8 +505,15 @@
   ; expands recursively (expression context)
   ; Expr, List of Xform -> Expr
   (define (expand/expr expr xforms recur-begin?)
+    ; pattern variables of an inner scope must not be visible in the outer one
+    (define outer-patterns $expander-pattern-vars)
     (define patterns (filter (lambda (e) (pattern-variable? (cadr e))) xforms))
     (set! $expander-pattern-vars patterns)
+    (define expr* (expand/expr* expr xforms recur-begin?))
+    (set! $expander-pattern-vars outer-patterns)
+    expr*)
+
+  (define (expand/expr* expr xforms recur-begin?)
     (let loop ([expr expr])
       (cond
         [(stx-self-evaluating? expr)
-- 
2.43.0


From 0ffb15006948546553ccb379d9020c9890093178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:50 +0000
Subject: [PATCH 60/80] fix: copy-environment reports its own argument errors

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 27cbda1..153a811 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2346,14 +2346,14 @@
                    (lambda (env mutable? syms)
                      (if (environment? env)
                          (if (boolean? mutable?)
-                             (if (andmap symbol? syms)
+                             (if (if (list? syms) (andmap symbol? syms) #f)
                                  ($copy-environment env mutable? syms)
                                  (raise-argument-error 'copy-environment "list of symbols" syms))
                              (raise-argument-error 'copy-environment "boolean?" mutable?))
                          (raise-argument-error 'copy-environment "environment?" env)))])
     (case-lambda
-      [(env) (1/copy-environment env #t (environment-symbols env))]
-      [(env mutable?) (1/copy-environment env mutable? (environment-symbols env))]
+      [(env) (1/copy-environment env #t (if (environment? env) ($environment-symbols env) '()))]
+      [(env mutable?) (1/copy-environment env mutable? (if (environment? env) ($environment-symbols env) '()))]
       [(env mutable? syms) (1/copy-environment env mutable? syms)])))
 
 (define-values (environment-symbols)
-- 
2.43.0


From 28f492a78e97d34b799592bb22d3ac02a0bb7590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:50 +0000
Subject: [PATCH 61/80] fix: GC_get_collectable counts allocated bytes

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 2e57cb1..f15e872 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -465,7 +465,7 @@ gc_get_reachable(gc_t *gc) {
 
 size_t
 gc_get_collectable(gc_t *gc) {
-    return (gc->alloc - gc_get_reachable(gc));
+    return (gc->allocs - gc_get_reachable(gc));
 }
 
 // Signals to mark phase not to descend
-- 
2.43.0


From 23f270d58c2df61d126f7d65ca124f24ee0cf01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:50 +0000
Subject: [PATCH 62/80] fix: freeing a root does not turn its bucket neighbour
 into a root

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index f15e872..055b6b4 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -302,7 +302,7 @@ gc_remove(gc_t *gc,
             --gc->size;
 
             // repair bucket entries as needed
-            if (pr)     gc_record_next_set(pr, r->next);
+            if (pr)     gc_record_next_set(pr, gc_record_next(r));
             else        gc->buckets[i] = gc_record_next(r);
 
             // free if needed
-- 
2.43.0


From 5bb273fa1c346c999d0ad73c1a0cd74dbcd0527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:50 +0000
Subject: [PATCH 63/80] fix: GC_free runs the destructor

---
 src/gc/minim-gc/gc-impl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 055b6b4..ff49e0a 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -305,8 +305,12 @@ gc_remove(gc_t *gc,
             if (pr)     gc_record_next_set(pr, gc_record_next(r));
             else        gc->buckets[i] = gc_record_next(r);
 
-            // free if needed
-            if (destroy)    free(r);
+            // call dtor if needed and free
+            if (destroy) {
+                if (r->dtor)    r->dtor(gc_record_ptr(r), NULL);
+                free(r);
+            }
+
             return;
         }
 
-- 
2.43.0


From 8a1aadc4e77e59cb0b6b288c4257792f67e3accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:44 +0000
Subject: [PATCH 64/80] fix: current-directory: report an absolute path after a
 relative change

---
 src/core/c/system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/system.c b/src/core/c/system.c
index 8395c7a..843d9fa 100644
--- a/src/core/c/system.c
+++ b/src/core/c/system.c
@@ -69,7 +69,8 @@ void set_current_dir(const char *str) {
         minim_error1("set_current_dir", "could not set current directory", Mstring(str));
     }
 
-    tc_directory(current_tc()) = Mstring(str);
+    // report a path that stays valid after later changes
+    tc_directory(current_tc()) = Mstring(_get_current_dir());
 }
 
 char* get_current_dir() {
-- 
2.43.0


From f050df770d2857c563318a13c13821194178c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:55 +0000
Subject: [PATCH 65/80] fix: import, export: accept absolute paths, report
 malformed clauses

---
 src/boot/s/boot.min    |  3 ++-
 src/library/module.min | 23 ++++++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 3986045..4371299 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -126,7 +126,8 @@
 (define-values ($module-table) (make-hashtable))
 (define-values ($module-envs) (make-hashtable))
 (define-values ($module-internals) (make-hashtable))
-(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports))) ((path) (build-path new-cwd maybe-import))) (if (string? maybe-import) (let-values () ($load-or-import path print-handler result-handler) (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export))) ((path) (build-path new-cwd module-name))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member path imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
+(define-values ($module-path) (lambda (base name) (if (is-absolute-path? name) name (build-path base name))))
+(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports)))) (if (string? maybe-import) (let-values () (letrec-values (((path) ($module-path new-cwd maybe-import)) (() (let-values () ($load-or-import path print-handler result-handler) (values))) ((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (if (list? maybe-export) (if (= (length maybe-export) 2) (syntax-e (cadr maybe-export)) #f) #f)) ((path) (if (string? module-name) ($module-path new-cwd module-name) #f))) (if (if path (member path imported-modules) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exprs))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
 (define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) ((letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) loop) imports))))
 (define-values ($eval-exprs) (lambda (exprs env print-handler) ((letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results ((letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) loop2) results (void)))))))))) loop) exprs (void))))
 (define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () ((letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) loop) exports) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
diff --git a/src/library/module.min b/src/library/module.min
index 9aa412e..552245e 100644
--- a/src/library/module.min
+++ b/src/library/module.min
@@ -17,6 +17,12 @@
 (define $module-envs (make-hashtable))
 (define $module-internals (make-hashtable))
 
+;; Path of a module named in a module found in `base`
+(define ($module-path base name)
+  (if (is-absolute-path? name)
+      name
+      (build-path base name)))
+
 ;; Like `$load-module`, but does not check the cache
 (define ($load-module path print-handler result-handler)
   ;; paths
@@ -59,9 +65,9 @@
                  (loop (cdr exprs) evalable)]
                 [(pair? imports)
                  (define maybe-import (syntax-e (car imports)))
-                 (define path (build-path new-cwd maybe-import))
                  (cond
                    [(string? maybe-import)
+                    (define path ($module-path new-cwd maybe-import))
                     ($load-or-import path print-handler result-handler)
                     (define from-module (hashtable-ref $module-table path))
                     (set! imported-modules (cons path imported-modules))
@@ -87,12 +93,15 @@
                    [(pair? maybe-export)
                     (cond
                       [(eq? (syntax-e (car maybe-export)) 'all)
-                       (define module-name (syntax-e (cadr maybe-export)))
-                       (define path (build-path new-cwd module-name))
+                       (define module-name
+                         (and (list? maybe-export)
+                              (= (length maybe-export) 2)
+                              (syntax-e (cadr maybe-export))))
+                       (define path
+                         (and (string? module-name)
+                              ($module-path new-cwd module-name)))
                        (cond
-                         [(and (string? module-name)
-                               (null? (cddr maybe-export))
-                               (member path imported-modules))
+                         [(and path (member path imported-modules))
                           (define from-module (hashtable-ref $module-table path))
                           (set! exported (append (map car (car from-module))
                                                  (map car (cdr from-module))
@@ -103,7 +112,7 @@
                    [else
                     (raise-syntax-error 'export "bad export syntax" (car exports))])]
                 [else
-                 (raise-syntax-error 'export "bad export syntax" (car exports))]))]
+                 (raise-syntax-error 'export "bad export syntax" (car exprs))]))]
            [else
             (loop (cdr exprs) (cons (car exprs) evalable))])])))
 
-- 
2.43.0


From d0f644020467ecb6935256808b967f071b6dbd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:11 +0000
Subject: [PATCH 66/80] fix: substring: report a bad start or a non-string as
 such

---
 src/boot/s/boot.min            | 2 +-
 src/library/private/string.min | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 4371299..ccc939a 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -59,7 +59,7 @@
 (define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) ((letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) loop) (cdr ss) i)))))))
 (define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) ((letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) loop) sts))))
 (define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) ((letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) loop) sts))))
-(define-values (substring) (lambda (str start end) (letrec-values (((len) (string-length str)) (() (let-values () (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (values))) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 end))) (values))) ((sstr) (make-string (- end start)))) ((letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) loop) 0 start))))
+(define-values (substring) (lambda (str start end) (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (letrec-values (((len) (string-length str)) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 (+ end 1) start))) (values))) ((sstr) (make-string (- end start)))) ((letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) loop) 0 start))))
 (define-values (identifier?) (lambda (t) (if (syntax? t) (symbol? (syntax-e t)) #f)))
 (define-values (free-identifier=?) (lambda (a b) (if (not (identifier? a)) (raise-argument-error (quote free-identifier=?) "identifier?" a) (if (not (identifier? b)) (raise-argument-error (quote free-identifier=?) "identifier?" b) (eq? (syntax-e a) (syntax-e b))))))
 (define-values (stx-null?) (lambda (t) (if (null? t) #t (if (syntax? t) (null? (syntax-e t)) #f))))
diff --git a/src/library/private/string.min b/src/library/private/string.min
index 183f2fc..2d5973c 100644
--- a/src/library/private/string.min
+++ b/src/library/private/string.min
@@ -6,9 +6,9 @@
 (export substring)
 
 (define (substring str start end)
-  (define len (string-length str))
   (unless (string? str)
     (raise-argument-error 'substring "string?" str))
+  (define len (string-length str))
   (unless (non-negative-integer? start)
     (raise-argument-error 'substring "non-negative-integer?" start))
   (unless (non-negative-integer? end)
@@ -16,7 +16,7 @@
   (unless (<= end len)
     (raise-range-error 'substring str "end" 0 (+ len 1) end))
   (unless (<= start end)
-    (raise-range-error 'substring str "start" 0 end))
+    (raise-range-error 'substring str "start" 0 (+ end 1) start))
   (define sstr (make-string (- end start)))
   (let loop ([i 0] [n start])
     (cond
-- 
2.43.0


From 2f49a529bab75916880515e4f0ca39f9b4e588dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:41 +0000
Subject: [PATCH 67/80] fix: import: know every module by one path, however it
 is spelled

---
 src/boot/s/boot.min    |  9 +++++----
 src/library/module.min | 38 +++++++++++++++++++++++---------------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index ccc939a..8638ead 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -126,15 +126,16 @@
 (define-values ($module-table) (make-hashtable))
 (define-values ($module-envs) (make-hashtable))
 (define-values ($module-internals) (make-hashtable))
-(define-values ($module-path) (lambda (base name) (if (is-absolute-path? name) name (build-path base name))))
+(define-values ($simplify-path) (lambda (path) ((letrec-values (((loop) (lambda (elems acc) (if (null? elems) (apply build-path (reverse acc)) (if (if (pair? acc) (equal? (car elems) "/") #f) (loop (cdr elems) acc) (if (equal? (car elems) ".") (loop (cdr elems) acc) (if (equal? (car elems) "..") (loop (cdr elems) (if (null? (cdr acc)) acc (cdr acc))) (loop (cdr elems) (cons (car elems) acc))))))))) loop) (path->list path) (quote ()))))
+(define-values ($module-path) (lambda (base name) ($simplify-path (if (is-absolute-path? name) name (build-path base name)))))
 (define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports)))) (if (string? maybe-import) (let-values () (letrec-values (((path) ($module-path new-cwd maybe-import)) (() (let-values () ($load-or-import path print-handler result-handler) (values))) ((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (if (list? maybe-export) (if (= (length maybe-export) 2) (syntax-e (cadr maybe-export)) #f) #f)) ((path) (if (string? module-name) ($module-path new-cwd module-name) #f))) (if (if path (member path imported-modules) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exprs))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
 (define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) ((letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) loop) imports))))
 (define-values ($eval-exprs) (lambda (exprs env print-handler) ((letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results ((letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) loop2) results (void)))))))))) loop) exprs (void))))
 (define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () ((letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) loop) exports) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
 (define-values ($repl) (lambda (env stx-env xforms scope) ((letrec-values (((loop) (lambda (xforms) (display "> ") (letrec-values (((expr) (read)) (() (let-values () (if (eof-object? expr) (let-values () (exit)) (void)) (values))) ((expr* xforms*) (expand expr stx-env xforms scope)) (() (let-values () (call-with-values (lambda () (eval (syntax->datum expr*) env)) (lambda results (for-each (lambda (result) (if (void? result) (void) (let-values () (writeln result)))) results))) (values)))) (loop xforms*))))) loop) xforms)))
-(define-values ($load-or-import) (lambda (name print-handler result-handler) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler))))))
-(define-values (read/module) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) ($load-module path #f #f))))
+(define-values ($load-or-import) (lambda (name print-handler result-handler) (letrec-values (((path) ($module-path (current-directory) name))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler))))))
+(define-values (read/module) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name))) ($load-module path #f #f))))
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
-(define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
+(define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
 (define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9)) ((i) (char->integer c))) (<= 0-char i 9-char)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) ((letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) loop) car))))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/module.min b/src/library/module.min
index 552245e..811e4a2 100644
--- a/src/library/module.min
+++ b/src/library/module.min
@@ -17,11 +17,28 @@
 (define $module-envs (make-hashtable))
 (define $module-internals (make-hashtable))
 
+;; Removes empty, `.` and `..` elements of an absolute path,
+;; so that every module is known by a single path
+(define ($simplify-path path)
+  (let loop ([elems (path->list path)] [acc '()])
+    (cond
+      [(null? elems)
+       (apply build-path (reverse acc))]
+      [(and (pair? acc) (equal? (car elems) "/"))
+       (loop (cdr elems) acc)]
+      [(equal? (car elems) ".")
+       (loop (cdr elems) acc)]
+      [(equal? (car elems) "..")
+       (loop (cdr elems) (if (null? (cdr acc)) acc (cdr acc)))]
+      [else
+       (loop (cdr elems) (cons (car elems) acc))])))
+
 ;; Path of a module named in a module found in `base`
 (define ($module-path base name)
-  (if (is-absolute-path? name)
-      name
-      (build-path base name)))
+  ($simplify-path
+    (if (is-absolute-path? name)
+        name
+        (build-path base name))))
 
 ;; Like `$load-module`, but does not check the cache
 (define ($load-module path print-handler result-handler)
@@ -225,20 +242,14 @@
 
 (define ($load-or-import name print-handler result-handler)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
+  (define path ($module-path (current-directory) name))
   ;; check cache first
   (unless (hashtable-contains? $module-table path)
     ($load-or-import-no-check path print-handler result-handler)))
 
 (define (read/module name)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
+  (define path ($module-path (current-directory) name))
   ($load-module path #f #f))
 
 ;; imports a file
@@ -253,10 +264,7 @@
 
 (define (enter! name)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
+  (define path ($module-path (current-directory) name))
   ;; set up environments
   (unless (hashtable-contains? $module-envs path)
     (error 'enter! "unknown module" name))
-- 
2.43.0


From 13d496e1eb08ba0e71ed88fee8bf05c13db542e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:54 +0000
Subject: [PATCH 68/80] fix: promises: keep the value computed first when a
 promise forces itself

---
 src/library/private/promise.min | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/library/private/promise.min b/src/library/private/promise.min
index 39e6f6a..43715e3 100644
--- a/src/library/private/promise.min
+++ b/src/library/private/promise.min
@@ -42,31 +42,23 @@
 ;;  Operations
 ;;
 
+; Forcing `p` may force `p` again; the value computed first is kept.
+(define ($promise-value p)
+  (unless (promise-forced? p)
+    (define result ((promise-producer p)))
+    (unless (promise-forced? p)
+      (promise-cache-set! p result)
+      (promise-forced?-set! p #t)))
+  (promise-cache p))
+
 (define (lazy p)
   (unless (promise? p)
     (raise-argument-error 'lazy "promise?" p))
   (let loop ([p p])
-    (define result
-      (cond
-        [(promise-forced? p)
-         (promise-cache p)]
-        [else
-         (define result ((promise-producer p)))
-         (promise-cache-set! p result)
-         (promise-forced?-set! p #t)
-         result]))
+    (define result ($promise-value p))
     (if (promise? result) (loop result) result)))
 
 (define (force p)
   (unless (promise? p)
     (raise-argument-error 'force "promise?" p))
-  (cond
-    [(promise-forced? p)
-     (promise-cache p)]
-    [else
-     (define result ((promise-producer p)))
-     (promise-cache-set! p result)
-     (promise-forced?-set! p #t)
-     result]))
-
-
+  ($promise-value p))
-- 
2.43.0


From 948186e2256245ebe57b0ca2b6e4cec0df5e5c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:33 +0000
Subject: [PATCH 69/80] fix: (begin) where a value is bound crashed the
 compiler

The optimizer looked for the last expression of an empty begin.
---
 src/core/c/jitopt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 41574f7..0583159 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -354,7 +354,7 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
         } else if (minim_car(e) == mvvalues_symbol) {
             // (mv-call (mv-values e ...) consumer) => (consumer e ...)
             return jit_opt_L1(Mcons(consumer, minim_cdr(e)));
-        } else if (minim_car(e) == begin_symbol) {
+        } else if (minim_car(e) == begin_symbol && !minim_nullp(minim_cdr(e))) {
             // (mv-call (begin e ... e_last) consumer)
             // => (begin e ... (mv-call e_last consumer))
             hd = tl = Mlist1(begin_symbol);
@@ -374,7 +374,8 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
                 Mlist3(mvcall_symbol, minim_car(minim_cddr(e)), consumer),
                 Mlist3(mvcall_symbol, minim_cadr(minim_cddr(e)), consumer)
             ));
-        } else if (minim_car(e) == lambda_symbol ||
+        } else if (minim_car(e) == begin_symbol ||
+            minim_car(e) == lambda_symbol ||
             minim_car(e) == quote_symbol ||
             minim_car(e) == quote_syntax_symbol) {
             // (mv-call e_single consumer) => (consumer e_single)
-- 
2.43.0


From ea30090f239e03eb5b3edc22942bd58e8603c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:32 +0000
Subject: [PATCH 70/80] fix: a number or a sign at the very end of a module's
 text was an error

---
 src/boot/s/boot.min  |  2 +-
 src/library/read.min | 15 +++++++--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 8638ead..bde71a8 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -138,4 +138,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9)) ((i) (char->integer c))) (<= 0-char i 9-char)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) ((letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) loop) car))))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) ((letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) loop) car))))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 06fce4e..1776846 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -39,16 +39,15 @@
        (not (delimeter? c)))
  
      (define (digit? c)
-       (define 0-char (char->integer #\0))
-       (define 9-char (char->integer #\9))
-       (define i (char->integer c))
-       (<= 0-char i 9-char))
+       (and (char? c)
+            (<= (char->integer #\0) (char->integer c) (char->integer #\9))))
  
      (define (hex-digit? c)
-       (define i (char->integer c))
-       (or (<= (char->integer #\0) i (char->integer #\9))
-           (<= (char->integer #\a) i (char->integer #\f))
-           (<= (char->integer #\A) i (char->integer #\F))))
+       (and (char? c)
+            (let ([i (char->integer c)])
+              (or (<= (char->integer #\0) i (char->integer #\9))
+                  (<= (char->integer #\a) i (char->integer #\f))
+                  (<= (char->integer #\A) i (char->integer #\F))))))
  
      (define (digit-prefix? c)
        (or (digit? c)
-- 
2.43.0


From 35c6fc6492cf0cc2507ce581a412b351fe5ab73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:27 +0000
Subject: [PATCH 71/80] fix: the module reader looped forever on an
 unterminated block comment or vector

---
 src/boot/s/boot.min  | 2 +-
 src/library/read.min | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index bde71a8..476a451 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -138,4 +138,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) ((letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) loop) car))))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) ((letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) loop) car))))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 1776846..3e5d182 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -90,6 +90,7 @@
            [(= block-level 0) (void)]
            [else
             (define c (read-char p))
+            (assert-not-eof! c)
             (cond
               [(eq? c #\#)
                (define c (peek-char p))
@@ -191,6 +192,7 @@
        (let loop ([elems '()])
          (skip-until-token!)
          (define c (peek-char p))
+         (assert-not-eof! c)
          (cond
            [(eq? c cparen)
             (read-char p)
-- 
2.43.0


From 741a8e0317fe8c1cd766ddcf13c3ab55c7683439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:34 +0000
Subject: [PATCH 72/80] fix: the module reader took the end of the text for a
 datum

---
 src/boot/s/boot.min  |  2 +-
 src/library/read.min | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 476a451..0d5bf71 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -138,4 +138,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) ((letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) loop) car))))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) ((letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-datum)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) loop) car))))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) (read-loop)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-loop)) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 3e5d182..6f4e6b2 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -142,6 +142,12 @@
            [else
             (void)])))
  
+     ; reads a datum that must exist
+     (define (read-datum)
+       (define datum (read-loop))
+       (assert-not-eof! datum)
+       datum)
+ 
      ; pair reader
      (define (read-pair open)
        (skip-until-token!)
@@ -167,7 +173,7 @@
                (cond
                  [(eq? (syntax-e maybe-dot) '.)
                   ; pair
-                  (define cdr (read-loop))
+                  (define cdr (read-datum))
  
                   (skip-until-token!)
                   (define c (peek-char p))
@@ -375,7 +381,7 @@
             [(eq? c #\')
              ; quoted syntax
              (read-char p)
-             (datum->syntax (list 'syntax (read-loop)))]
+             (datum->syntax (list 'syntax (read-datum)))]
             [(eq? c oparen)
              ; vector
              (read-char p)
@@ -383,7 +389,7 @@
             [(eq? c #\&)
              ; box
              (read-char p)
-             (datum->syntax (box (read-loop)))]
+             (datum->syntax (box (read-datum)))]
             [(eq? c #\x)
              ; hex number
              (read-char p)
@@ -391,17 +397,14 @@
             [(eq? c #\;)
              ; datum comment
              (read-char p)
-             (skip-until-token!)
-             (define c (peek-char p))
-             (assert-not-eof! c)
              ; read and ignore, then actually read
-             (read-loop)
+             (read-datum)
              (read-loop)]
             [(eq? c #\|)
              ; block comment
              (read-char p)         
              (skip-block-comment!)
-             (datum->syntax (read-loop))]
+             (read-loop)]
             [else
              ; unknown
              (errorf 'read "unknown special character ~a" c)])]
@@ -434,7 +437,7 @@
          [(eq? c #\')
           ; quoted form
           (read-char p)
-          (datum->syntax (list 'quote (read-loop)))]
+          (datum->syntax (list 'quote (read-datum)))]
          [(symbol-char? c)
           ; symbol
           (datum->syntax (read-symbol '()))]
-- 
2.43.0


From 784a2ede606a8425ff1950f0e19fa8bb1b8d5213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 73/80] fix: a comment before a closing parenthesis was an
 error in modules

---
 src/boot/s/boot.min  |  2 +-
 src/library/read.min | 92 +++++++++++++++++++++++---------------------
 2 files changed, 49 insertions(+), 45 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 0d5bf71..9833cd1 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -138,4 +138,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) ((letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-datum)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) loop) car))))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) (read-loop)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-loop)) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 6f4e6b2..f4c869d 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -142,6 +142,16 @@
            [else
             (void)])))
  
+     ; what `read-token` returns for a comment
+     (define comment (list 'comment))
+ 
+     ; reads the next datum, skipping comments
+     (define (read-loop)
+       (define datum (read-token))
+       (if (eq? datum comment)
+           (read-loop)
+           datum))
+ 
      ; reads a datum that must exist
      (define (read-datum)
        (define datum (read-loop))
@@ -150,48 +160,39 @@
  
      ; pair reader
      (define (read-pair open)
-       (skip-until-token!)
-       (define c (peek-char p))
-       (assert-not-eof! c)
+       ; reads up to the closing parenthesis and returns `tail`
+       (define (read-close tail)
+         (skip-until-token!)
+         (define c (peek-char p))
+         (assert-not-eof! c)
+         (cond
+           [(or (eq? c cparen) (eq? c cbrack) (eq? c cbrace))
+            (assert-matching-parens! open c)
+            (read-char p)
+            tail]
+           [(eq? (read-token) comment)
+            (read-close tail)]
+           [else
+            (error 'read "missing closing parenthesis")]))
  
-       (cond
-         [(or (eq? c cparen) (eq? c cbrack) (eq? c cbrace))
-          (assert-matching-parens! open c)
-          (read-char p)
-          '()]
-         [else
-          (define car (read-loop))
-          ;; possibly a dot
-          (let loop ([car car])
-            (skip-until-token!)
-            (define c (peek-char p))
-            (assert-not-eof! c)
+       (let loop ([elems '()])
+         (skip-until-token!)
+         (define c (peek-char p))
+         (assert-not-eof! c)
+         (cond
+           [(or (eq? c cparen) (eq? c cbrack) (eq? c cbrace))
+            (reverse (read-close elems))]
+           [else
+            (define elem (read-token))
             (cond
-              [(eq? c #\.)
-               ; maybe a pair
-               (define maybe-dot (read-loop))
-               (cond
-                 [(eq? (syntax-e maybe-dot) '.)
-                  ; pair
-                  (define cdr (read-datum))
- 
-                  (skip-until-token!)
-                  (define c (peek-char p))
-                  (assert-not-eof! c)
- 
-                  (cond
-                    [(or (eq? c cparen) (eq? c cbrack) (eq? c cbrace))
-                     (assert-matching-parens! open c)
-                     (read-char p)
-                     (cons car cdr)]
-                    [else
-                     (error 'read "missing closing parenthesis")])]
-                 [else
-                  ; oops, just kidding
-                  (cons car (loop maybe-dot))])]
+              [(eq? elem comment)
+               (loop elems)]
+              [(and (eq? c #\.) (pair? elems) (eq? (syntax-e elem) '.))
+               ; pair
+               (define tail (read-close (read-datum)))
+               (foldl (lambda (acc elem) (cons elem acc)) tail elems)]
               [else
-               (define cdr (read-pair open))
-               (cons car cdr)]))]))
+               (loop (cons elem elems))])])))
  
      ; vector reader
      (define (read-vector)
@@ -204,7 +205,10 @@
             (read-char p)
             (list->vector (reverse elems))]
            [else
-            (loop (cons (read-loop) elems))])))
+            (define elem (read-token))
+            (if (eq? elem comment)
+                (loop elems)
+                (loop (cons elem elems)))])))
  
      ; character reader
      (define (read-character)
@@ -353,7 +357,7 @@
  
      ;; Main loop
  
-     (define (read-loop)
+     (define (read-token)
        ; read and branch
        (skip-until-token!)
        (define c (peek-char p))
@@ -397,14 +401,14 @@
             [(eq? c #\;)
              ; datum comment
              (read-char p)
-             ; read and ignore, then actually read
+             ; read and ignore
              (read-datum)
-             (read-loop)]
+             comment]
             [(eq? c #\|)
              ; block comment
              (read-char p)         
              (skip-block-comment!)
-             (read-loop)]
+             comment]
             [else
              ; unknown
              (errorf 'read "unknown special character ~a" c)])]
-- 
2.43.0


From 6bc4dc88d2ff2bc04428342e464a5fcd42968c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:41 +0000
Subject: [PATCH 74/80] fix: the module reader did not treat tabs and returns
 as space

---
 src/boot/s/boot.min  | 2 +-
 src/library/read.min | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 9833cd1..3996a0d 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -138,4 +138,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index f4c869d..572f5ac 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -26,8 +26,9 @@
      (define cbrace (integer->char 125))
  
      (define (space? c)
-       (or (eq? c #\space)
-           (eq? c #\newline)))
+       (and (char? c)
+            (or (eq? c #\space)
+                (<= 9 (char->integer c) 13))))  ; tab, newline, vtab, page, return
  
      (define (delimeter? c)
        (or (eof-object? c) (space? c)
-- 
2.43.0


From d78963912a12fd6df0f12ad4e514efb471c80cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:44 +0000
Subject: [PATCH 75/80] fix: the module reader lost signs of symbols and
 accepted malformed hexadecimal numbers

---
 src/boot/s/boot.min  |  2 +-
 src/library/read.min | 25 ++++++++++---------------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 3996a0d..17bc63b 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -138,4 +138,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda (chars) (letrec-values (((0-char) (char->integer #\0)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((empty?) #t) ((sign) (if (eq? c #\-) (let-values () (read-char p) -1) (if (eq? c #\+) (let-values () (read-char p) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (hex-digit? c) (let-values () (read-char p) (set! empty? #f) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (let-values (((or-t) empty?)) (if or-t or-t (symbol-char? c))) (error (quote read) "invalid hexadecimal number") (* num sign))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (number? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 572f5ac..67ddc49 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -243,11 +243,11 @@
           c]))
  
      ; decimal number reader
-     (define (read-number)
+     (define (read-number chars)
+       ; `chars` is the sign, if there was any
        ; if we encounter a non-digit, the token is a symbol
        ; so we need to track characters that we read
        (define 0-char (char->integer #\0))
-       (define chars '())
        (define num 0)
  
        ; magnitude
@@ -268,20 +268,17 @@
  
      ; hexidecimal number reader
      (define (read-hex-number c)
-       ; if we encounter a non-digit, the token is a symbol
-       ; so we need to track characters that we read
-       (define chars '())
+       ; there must be at least one digit, and nothing else
+       (define empty? #t)
  
        ; optional sign
        (define sign
          (cond
            [(eq? c #\-)
             (read-char p)
-            (set! chars (cons c chars))
             -1]
            [(eq? c #\+)
             (read-char p)
-            (set! chars (cons c chars))
             1]
            [else
             1]))
@@ -294,10 +291,10 @@
        (define num 0)
        (let read-digit! ()
          (define c (peek-char p))
-         (set! chars (cons c chars))
          (cond
            [(hex-digit? c)
             (read-char p)
+            (set! empty? #f)
             (define i (char->integer c))
             (cond
               [(digit? c)
@@ -307,11 +304,9 @@
               [else
                (set! num (+ (* 16 num) (+ 10 (- i A-char))))])
             (read-digit!)]
-           [(symbol-char? c)
-            (read-char p)
-            (read-symbol chars)]
+           [(or empty? (symbol-char? c))
+            (error 'read "invalid hexadecimal number")]
            [else
-            (assert-delimeter! (peek-char p))
             (* num sign)])))
  
      ; string reader
@@ -420,15 +415,15 @@
           (cond
             [(digit? n)
              ; optional sign
-             (define pos-num (read-number))
-             (if (eq? c #\-)
+             (define pos-num (read-number (list c)))
+             (if (and (eq? c #\-) (number? pos-num))
                  (datum->syntax (- pos-num))
                  (datum->syntax pos-num))]
             [else
              (datum->syntax (read-symbol (list c)))])]
          [(digit? c)
           ; number
-          (datum->syntax (read-number))]
+          (datum->syntax (read-number '()))]
          [(eq? c #\")
           ; string
           (read-char p)
-- 
2.43.0


From d1a90e016a58263b70f40210d53dca78596617e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:44 +0000
Subject: [PATCH 76/80] fix: the module reader rejected symbols that start with
 #%

---
 src/boot/s/boot.min  | 2 +-
 src/library/read.min | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 17bc63b..b256634 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -138,4 +138,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda (chars) (letrec-values (((0-char) (char->integer #\0)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((empty?) #t) ((sign) (if (eq? c #\-) (let-values () (read-char p) -1) (if (eq? c #\+) (let-values () (read-char p) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (hex-digit? c) (let-values () (read-char p) (set! empty? #f) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (let-values (((or-t) empty?)) (if or-t or-t (symbol-char? c))) (error (quote read) "invalid hexadecimal number") (* num sign))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (number? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda (chars) (letrec-values (((0-char) (char->integer #\0)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((empty?) #t) ((sign) (if (eq? c #\-) (let-values () (read-char p) -1) (if (eq? c #\+) (let-values () (read-char p) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (hex-digit? c) (let-values () (read-char p) (set! empty? #f) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (let-values (((or-t) empty?)) (if or-t or-t (symbol-char? c))) (error (quote read) "invalid hexadecimal number") (* num sign))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (number? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 67ddc49..6960a5b 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -390,6 +390,9 @@
              ; box
              (read-char p)
              (datum->syntax (box (read-datum)))]
+            [(eq? c #\%)
+             ; symbol
+             (datum->syntax (read-symbol (list #\#)))]
             [(eq? c #\x)
              ; hex number
              (read-char p)
-- 
2.43.0


From 1ff1952abc87f43f7caed58358454f23bd9c8df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:42 +0000
Subject: [PATCH 77/80] fix: the module reader knew only two character names
 and ignored what followed them

---
 src/boot/s/boot.min  |  2 +-
 src/library/read.min | 56 ++++++++++++++------------------------------
 2 files changed, 19 insertions(+), 39 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index b256634..d4ce570 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -138,4 +138,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda (chars) (letrec-values (((0-char) (char->integer #\0)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((empty?) #t) ((sign) (if (eq? c #\-) (let-values () (read-char p) -1) (if (eq? c #\+) (let-values () (read-char p) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (hex-digit? c) (let-values () (read-char p) (set! empty? #f) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (let-values (((or-t) empty?)) (if or-t or-t (symbol-char? c))) (error (quote read) "invalid hexadecimal number") (* num sign))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (number? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (delimeter? (peek-char p)) c (let-values (((name) (read-symbol (list c)))) (let-values (((tmp) name)) (if (equal? tmp (quote alarm)) (let-values () (integer->char 7)) (if (equal? tmp (quote backspace)) (let-values () (integer->char 8)) (if (equal? tmp (quote tab)) (let-values () (integer->char 9)) (if (equal? tmp (quote linefeed)) (let-values () (integer->char 10)) (if (equal? tmp (quote newline)) (let-values () (integer->char 10)) (if (equal? tmp (quote vtab)) (let-values () (integer->char 11)) (if (equal? tmp (quote page)) (let-values () (integer->char 12)) (if (equal? tmp (quote return)) (let-values () (integer->char 13)) (if (equal? tmp (quote esc)) (let-values () (integer->char 27)) (if (equal? tmp (quote space)) (let-values () (integer->char 32)) (if (equal? tmp (quote delete)) (let-values () (integer->char 127)) (if (equal? tmp (quote nul)) (let-values () (integer->char 0)) (let-values () (errorf (quote read) "unknown character ~a" name)))))))))))))))))))) ((read-number) (lambda (chars) (letrec-values (((0-char) (char->integer #\0)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((empty?) #t) ((sign) (if (eq? c #\-) (let-values () (read-char p) -1) (if (eq? c #\+) (let-values () (read-char p) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (hex-digit? c) (let-values () (read-char p) (set! empty? #f) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (let-values (((or-t) empty?)) (if or-t or-t (symbol-char? c))) (error (quote read) "invalid hexadecimal number") (* num sign))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (number? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 6960a5b..8cefa0f 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -127,22 +127,6 @@
          [else
           (void)]))
  
-     (define (check-expected-string! s)
-       (define len (string-length s))
-       (let loop ([i 0])
-         (cond
-           [(< i len)
-            (define c (read-char p))
-            (cond
-              [(eof-object? c)
-               (error 'read "unexpected end of input")]
-              [(eq? c (string-ref s i))
-               (loop (+ i 1))]
-              [else
-               (errorf 'read "unexpected character ~a" c)])]
-           [else
-            (void)])))
- 
      ; what `read-token` returns for a comment
      (define comment (list 'comment))
  
@@ -219,28 +203,24 @@
            (void))
    
        ; check for special values
-       (cond
-         [(eq? c #\s)
-          (define cn (peek-char p))
-          (cond
-            [(eq? cn #\p)
-             (check-expected-string! "pace")
-             #\space]
-            [else
-             (assert-delimeter! (peek-char p))
-             c])]
-         [(eq? c #\n)
-          (define cn (peek-char p))
-          (cond
-            [(eq? cn #\e)
-             (check-expected-string! "ewline")
-             #\newline]
-            [else
-             (assert-delimeter! (peek-char p))
-             c])]
-         [else
-          (assert-delimeter! (peek-char p))
-          c]))
+       (if (delimeter? (peek-char p))
+           c
+           (let ([name (read-symbol (list c))])
+             (case name
+               [(alarm)     (integer->char 7)]
+               [(backspace) (integer->char 8)]
+               [(tab)       (integer->char 9)]
+               [(linefeed)  (integer->char 10)]
+               [(newline)   (integer->char 10)]
+               [(vtab)      (integer->char 11)]
+               [(page)      (integer->char 12)]
+               [(return)    (integer->char 13)]
+               [(esc)       (integer->char 27)]
+               [(space)     (integer->char 32)]
+               [(delete)    (integer->char 127)]
+               [(nul)       (integer->char 0)]
+               [else
+                (errorf 'read "unknown character ~a" name)]))))
  
      ; decimal number reader
      (define (read-number chars)
-- 
2.43.0


From 256ddd3387b4d795ca8d652524526660851ebb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:59 +0000
Subject: [PATCH 78/80] fix: the module reader rejected most string escapes

---
 src/boot/s/boot.min  |  2 +-
 src/library/read.min | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index d4ce570..a506f34 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -138,4 +138,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (delimeter? (peek-char p)) c (let-values (((name) (read-symbol (list c)))) (let-values (((tmp) name)) (if (equal? tmp (quote alarm)) (let-values () (integer->char 7)) (if (equal? tmp (quote backspace)) (let-values () (integer->char 8)) (if (equal? tmp (quote tab)) (let-values () (integer->char 9)) (if (equal? tmp (quote linefeed)) (let-values () (integer->char 10)) (if (equal? tmp (quote newline)) (let-values () (integer->char 10)) (if (equal? tmp (quote vtab)) (let-values () (integer->char 11)) (if (equal? tmp (quote page)) (let-values () (integer->char 12)) (if (equal? tmp (quote return)) (let-values () (integer->char 13)) (if (equal? tmp (quote esc)) (let-values () (integer->char 27)) (if (equal? tmp (quote space)) (let-values () (integer->char 32)) (if (equal? tmp (quote delete)) (let-values () (integer->char 127)) (if (equal? tmp (quote nul)) (let-values () (integer->char 0)) (let-values () (errorf (quote read) "unknown character ~a" name)))))))))))))))))))) ((read-number) (lambda (chars) (letrec-values (((0-char) (char->integer #\0)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((empty?) #t) ((sign) (if (eq? c #\-) (let-values () (read-char p) -1) (if (eq? c #\+) (let-values () (read-char p) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (hex-digit? c) (let-values () (read-char p) (set! empty? #f) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (let-values (((or-t) empty?)) (if or-t or-t (symbol-char? c))) (error (quote read) "invalid hexadecimal number") (* num sign))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (number? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (delimeter? (peek-char p)) c (let-values (((name) (read-symbol (list c)))) (let-values (((tmp) name)) (if (equal? tmp (quote alarm)) (let-values () (integer->char 7)) (if (equal? tmp (quote backspace)) (let-values () (integer->char 8)) (if (equal? tmp (quote tab)) (let-values () (integer->char 9)) (if (equal? tmp (quote linefeed)) (let-values () (integer->char 10)) (if (equal? tmp (quote newline)) (let-values () (integer->char 10)) (if (equal? tmp (quote vtab)) (let-values () (integer->char 11)) (if (equal? tmp (quote page)) (let-values () (integer->char 12)) (if (equal? tmp (quote return)) (let-values () (integer->char 13)) (if (equal? tmp (quote esc)) (let-values () (integer->char 27)) (if (equal? tmp (quote space)) (let-values () (integer->char 32)) (if (equal? tmp (quote delete)) (let-values () (integer->char 127)) (if (equal? tmp (quote nul)) (let-values () (integer->char 0)) (let-values () (errorf (quote read) "unknown character ~a" name)))))))))))))))))))) ((read-number) (lambda (chars) (letrec-values (((0-char) (char->integer #\0)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((empty?) #t) ((sign) (if (eq? c #\-) (let-values () (read-char p) -1) (if (eq? c #\+) (let-values () (read-char p) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (hex-digit? c) (let-values () (read-char p) (set! empty? #f) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (let-values (((or-t) empty?)) (if or-t or-t (symbol-char? c))) (error (quote read) "invalid hexadecimal number") (* num sign))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (number? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 8cefa0f..1fba899 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -311,6 +311,27 @@
               [(eq? c #\")
                (read-char p)
                (loop (cons #\" acc))]
+              [(eq? c #\')
+               (read-char p)
+               (loop (cons #\' acc))]
+              [(eq? c #\a)
+               (read-char p)
+               (loop (cons (integer->char 7) acc))]
+              [(eq? c #\b)
+               (read-char p)
+               (loop (cons (integer->char 8) acc))]
+              [(eq? c #\t)
+               (read-char p)
+               (loop (cons (integer->char 9) acc))]
+              [(eq? c #\v)
+               (read-char p)
+               (loop (cons (integer->char 11) acc))]
+              [(eq? c #\f)
+               (read-char p)
+               (loop (cons (integer->char 12) acc))]
+              [(eq? c #\r)
+               (read-char p)
+               (loop (cons (integer->char 13) acc))]
               [else
                (errorf 'read "unknown escape character ~a" c)])]
            [(eq? c #\")
-- 
2.43.0


From 781282cbc8d23fc9982c110eb295488d74e3c410 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 08:26:24 +0000
Subject: [PATCH 79/80] fix: modules that import each other were loaded forever

---
 src/boot/s/boot.min    | 12 ++++++------
 src/library/module.min | 24 ++++++++++++++----------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index a506f34..243aac1 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -128,14 +128,14 @@
 (define-values ($module-internals) (make-hashtable))
 (define-values ($simplify-path) (lambda (path) ((letrec-values (((loop) (lambda (elems acc) (if (null? elems) (apply build-path (reverse acc)) (if (if (pair? acc) (equal? (car elems) "/") #f) (loop (cdr elems) acc) (if (equal? (car elems) ".") (loop (cdr elems) acc) (if (equal? (car elems) "..") (loop (cdr elems) (if (null? (cdr acc)) acc (cdr acc))) (loop (cdr elems) (cons (car elems) acc))))))))) loop) (path->list path) (quote ()))))
 (define-values ($module-path) (lambda (base name) ($simplify-path (if (is-absolute-path? name) name (build-path base name)))))
-(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports)))) (if (string? maybe-import) (let-values () (letrec-values (((path) ($module-path new-cwd maybe-import)) (() (let-values () ($load-or-import path print-handler result-handler) (values))) ((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (if (list? maybe-export) (if (= (length maybe-export) 2) (syntax-e (cadr maybe-export)) #f) #f)) ((path) (if (string? module-name) ($module-path new-cwd module-name) #f))) (if (if path (member path imported-modules) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exprs))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
+(define-values ($load-module) (lambda (path pending print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports)))) (if (string? maybe-import) (let-values () (letrec-values (((path) ($module-path new-cwd maybe-import)) (() (let-values () ($load-or-import path pending print-handler result-handler) (values))) ((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (if (list? maybe-export) (if (= (length maybe-export) 2) (syntax-e (cadr maybe-export)) #f) #f)) ((path) (if (string? module-name) ($module-path new-cwd module-name) #f))) (if (if path (member path imported-modules) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exprs))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
 (define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) ((letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) loop) imports))))
 (define-values ($eval-exprs) (lambda (exprs env print-handler) ((letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results ((letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) loop2) results (void)))))))))) loop) exprs (void))))
-(define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () ((letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) loop) exports) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
+(define-values ($load-or-import-no-check) (lambda (path pending print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path (cons path pending) print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () ((letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) loop) exports) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
 (define-values ($repl) (lambda (env stx-env xforms scope) ((letrec-values (((loop) (lambda (xforms) (display "> ") (letrec-values (((expr) (read)) (() (let-values () (if (eof-object? expr) (let-values () (exit)) (void)) (values))) ((expr* xforms*) (expand expr stx-env xforms scope)) (() (let-values () (call-with-values (lambda () (eval (syntax->datum expr*) env)) (lambda results (for-each (lambda (result) (if (void? result) (void) (let-values () (writeln result)))) results))) (values)))) (loop xforms*))))) loop) xforms)))
-(define-values ($load-or-import) (lambda (name print-handler result-handler) (letrec-values (((path) ($module-path (current-directory) name))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler))))))
-(define-values (read/module) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name))) ($load-module path #f #f))))
-(define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
-(define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
+(define-values ($load-or-import) (lambda (name pending print-handler result-handler) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (member path pending) (let-values () (error (quote import) "import cycle" path)) (void)) (values)))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path pending print-handler result-handler))))))
+(define-values (read/module) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name))) ($load-module path (list path) #f #f))))
+(define-values (import) (lambda (name) ($load-or-import name (quote ()) (lambda (o) (writeln o)) #f)))
+(define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name (quote ()) #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs)) (copy-environment (car envs) #f) xforms scope))))
 (define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((hex-digit?) (lambda (c) (if (char? c) (let-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))) #f))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((comment) (list (quote comment))) ((read-loop) (lambda () (letrec-values (((datum) (read-token))) (if (eq? datum comment) (read-loop) datum)))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (letrec-values (((read-close) (lambda (tail) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) tail) (if (eq? (read-token) comment) (read-close tail) (error (quote read) "missing closing parenthesis"))))))) ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (reverse (read-close elems)) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (if (if (eq? c #\.) (if (pair? elems) (eq? (syntax-e elem) (quote .)) #f) #f) (let-values () (letrec-values (((tail) (read-close (read-datum)))) (foldl (lambda (acc elem) (cons elem acc)) tail elems))) (loop (cons elem elems))))))))))) loop) (quote ()))))) ((read-vector) (lambda () ((letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-token))) (if (eq? elem comment) (loop elems) (loop (cons elem elems)))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (delimeter? (peek-char p)) c (let-values (((name) (read-symbol (list c)))) (let-values (((tmp) name)) (if (equal? tmp (quote alarm)) (let-values () (integer->char 7)) (if (equal? tmp (quote backspace)) (let-values () (integer->char 8)) (if (equal? tmp (quote tab)) (let-values () (integer->char 9)) (if (equal? tmp (quote linefeed)) (let-values () (integer->char 10)) (if (equal? tmp (quote newline)) (let-values () (integer->char 10)) (if (equal? tmp (quote vtab)) (let-values () (integer->char 11)) (if (equal? tmp (quote page)) (let-values () (integer->char 12)) (if (equal? tmp (quote return)) (let-values () (integer->char 13)) (if (equal? tmp (quote esc)) (let-values () (integer->char 27)) (if (equal? tmp (quote space)) (let-values () (integer->char 32)) (if (equal? tmp (quote delete)) (let-values () (integer->char 127)) (if (equal? tmp (quote nul)) (let-values () (integer->char 0)) (let-values () (errorf (quote read) "unknown character ~a" name)))))))))))))))))))) ((read-number) (lambda (chars) (letrec-values (((0-char) (char->integer #\0)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((empty?) #t) ((sign) (if (eq? c #\-) (let-values () (read-char p) -1) (if (eq? c #\+) (let-values () (read-char p) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (hex-digit? c) (let-values () (read-char p) (set! empty? #f) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (let-values (((or-t) empty?)) (if or-t or-t (symbol-char? c))) (error (quote read) "invalid hexadecimal number") (* num sign))))))) read-digit!))))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-token) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-datum) comment) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (number? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/module.min b/src/library/module.min
index 811e4a2..523e05e 100644
--- a/src/library/module.min
+++ b/src/library/module.min
@@ -40,8 +40,9 @@
         name
         (build-path base name))))
 
-;; Like `$load-module`, but does not check the cache
-(define ($load-module path print-handler result-handler)
+;; Like `$load-module`, but does not check the cache;
+;; `pending` lists the modules being loaded, starting with this one
+(define ($load-module path pending print-handler result-handler)
   ;; paths
   (define new-cwd (car (split-path path)))
 
@@ -85,7 +86,7 @@
                  (cond
                    [(string? maybe-import)
                     (define path ($module-path new-cwd maybe-import))
-                    ($load-or-import path print-handler result-handler)
+                    ($load-or-import path pending print-handler result-handler)
                     (define from-module (hashtable-ref $module-table path))
                     (set! imported-modules (cons path imported-modules))
                     (set! imported-xforms (merge-xforms imported-xforms (car from-module)))
@@ -183,10 +184,10 @@
                   (writeln (car results)))
                 (loop2 (cdr results) (car results))]))))])))
 
-(define ($load-or-import-no-check path print-handler result-handler)
+(define ($load-or-import-no-check path pending print-handler result-handler)
   ;; load expressions
   (define-values (exprs module-xforms imports exports stx-env scope)
-    ($load-module path print-handler result-handler))
+    ($load-module path (cons path pending) print-handler result-handler))
   ;; evaluate
   (define env ($eval-environment $base-env imports))
   (define last ($eval-exprs exprs env print-handler))
@@ -240,25 +241,28 @@
     ; loop
     (loop xforms*)))
 
-(define ($load-or-import name print-handler result-handler)
+(define ($load-or-import name pending print-handler result-handler)
   ;; resolve path
   (define path ($module-path (current-directory) name))
+  ;; a module may not need itself
+  (when (member path pending)
+    (error 'import "import cycle" path))
   ;; check cache first
   (unless (hashtable-contains? $module-table path)
-    ($load-or-import-no-check path print-handler result-handler)))
+    ($load-or-import-no-check path pending print-handler result-handler)))
 
 (define (read/module name)
   ;; resolve path
   (define path ($module-path (current-directory) name))
-  ($load-module path #f #f))
+  ($load-module path (list path) #f #f))
 
 ;; imports a file
 (define (import name)
-  ($load-or-import name (lambda (o) (writeln o)) #f))
+  ($load-or-import name '() (lambda (o) (writeln o)) #f))
 
 ;; loads a file
 (define (load name)
-  (define result ($load-or-import name #f (lambda (o) o)))
+  (define result ($load-or-import name '() #f (lambda (o) o)))
   (unless (void? result) (writeln result))
   (enter! name))
 
-- 
2.43.0


From 49719d29ad68af501558d99dd3e2edb60ec12f61 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 08:47:00 +0000
Subject: [PATCH 80/80] fix: procedure-arity gave out the procedure's own
 arity, which could then be changed

---
 src/core/c/procedure.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/c/procedure.c b/src/core/c/procedure.c
index 09fe503..eb9261f 100644
--- a/src/core/c/procedure.c
+++ b/src/core/c/procedure.c
@@ -26,9 +26,16 @@ mobj procp_proc(mobj x) {
     return minim_procp(x) ? minim_true : minim_false;
 }
 
+// Returns a copy of an arity: the original belongs to the code object.
+static mobj copy_arity(mobj arity) {
+    return minim_consp(arity)
+        ? Mcons(copy_arity(minim_car(arity)), copy_arity(minim_cdr(arity)))
+        : arity;
+}
+
 mobj procedure_arity_proc(mobj proc) {
     // (-> procedure any)
-    return minim_code_arity(minim_closure_code(proc));
+    return copy_arity(minim_code_arity(minim_closure_code(proc)));
 }
 
 mobj procedure_name_proc(mobj proc) {
-- 
2.43.0

