From 350f7ac755b53f4fefdb6c3d39c7876f57a72854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:01 +0000
Subject: [PATCH 01/11] fix: C++98 string<> treated '\xff' as the end of the
 string

The marker of the unused character slots was EOF (-1), which is the value of
'\xff' on platforms with signed char: size, end, back, push_back, equal_to and
every parser cut such strings short. Use a value no char can have.
---
 include/boost/metaparse/v1/impl/no_char.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/metaparse/v1/impl/no_char.hpp b/include/boost/metaparse/v1/impl/no_char.hpp
index c6b91f0..88da2df 100644
--- a/include/boost/metaparse/v1/impl/no_char.hpp
+++ b/include/boost/metaparse/v1/impl/no_char.hpp
@@ -6,12 +6,14 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          http://www.boost.org/LICENSE_1_0.txt)
 
-#include <cstdio>
+#include <climits>
 
 #ifdef BOOST_NO_CHAR
 #  error BOOST_NO_CHAR already defined
 #endif
-#define BOOST_NO_CHAR EOF
+// This has to be different from every value of char: EOF can not be used as it
+// is -1, the value of '\xff' where char is signed
+#define BOOST_NO_CHAR INT_MAX
 
 #endif
 
-- 
2.43.0


From 5fe622b122ec946cbb0a5a2fe31e215ae4c1b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 02/11] fix: add the documented header
 boost/metaparse/error/expected_to_fail.hpp

---
 include/boost/metaparse.hpp                   |  1 +
 .../metaparse/error/expected_to_fail.hpp      | 23 +++++++++++++++++++
 2 files changed, 24 insertions(+)
 create mode 100644 include/boost/metaparse/error/expected_to_fail.hpp

diff --git a/include/boost/metaparse.hpp b/include/boost/metaparse.hpp
index d6efecc..1d2ffdc 100644
--- a/include/boost/metaparse.hpp
+++ b/include/boost/metaparse.hpp
@@ -26,6 +26,7 @@
 #include <boost/metaparse/entire_input.hpp>
 #include <boost/metaparse/error/digit_expected.hpp>
 #include <boost/metaparse/error/end_of_input_expected.hpp>
+#include <boost/metaparse/error/expected_to_fail.hpp>
 #include <boost/metaparse/error/index_out_of_range.hpp>
 #include <boost/metaparse/error/letter_expected.hpp>
 #include <boost/metaparse/error/literal_expected.hpp>
diff --git a/include/boost/metaparse/error/expected_to_fail.hpp b/include/boost/metaparse/error/expected_to_fail.hpp
new file mode 100644
index 0000000..bc7cc88
--- /dev/null
+++ b/include/boost/metaparse/error/expected_to_fail.hpp
@@ -0,0 +1,23 @@
+#ifndef BOOST_METAPARSE_ERROR_EXPECTED_TO_FAIL_HPP
+#define BOOST_METAPARSE_ERROR_EXPECTED_TO_FAIL_HPP
+
+// Copyright Abel Sinkovics (abel@sinkovics.hu)  2015.
+// Distributed under the Boost Software License, Version 1.0.
+//    (See accompanying file LICENSE_1_0.txt or copy at
+//          http://www.boost.org/LICENSE_1_0.txt)
+
+#include <boost/metaparse/v1/error/expected_to_fail.hpp>
+
+namespace boost
+{
+  namespace metaparse
+  {
+    namespace error
+    {
+      using v1::error::expected_to_fail;
+    }
+  }
+}
+
+#endif
+
-- 
2.43.0


From 39ab6449cacddb184b4672b0c9c96829be377262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:50 +0000
Subject: [PATCH 03/11] fix: C++98 string<> of exactly
 BOOST_METAPARSE_LIMIT_STRING_SIZE characters has a size

---
 include/boost/metaparse/v1/cpp98/impl/size.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/metaparse/v1/cpp98/impl/size.hpp b/include/boost/metaparse/v1/cpp98/impl/size.hpp
index 7de1241..1f87f4e 100644
--- a/include/boost/metaparse/v1/cpp98/impl/size.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/size.hpp
@@ -54,6 +54,16 @@ namespace boost
         )
   
         #undef BOOST_METAPARSE_STRING_CASE
+
+        template <
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, int C)
+        >
+        struct
+          size<
+            string<BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, C)>
+          > :
+          boost::mpl::int_<BOOST_METAPARSE_LIMIT_STRING_SIZE>
+        {};
       }
     }
   }
-- 
2.43.0


From a0d1aea01afc128752a7d4ff91dabdff5089dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:40 +0000
Subject: [PATCH 04/11] fix: C++98 one_of_c accepts
 BOOST_METAPARSE_LIMIT_ONE_OF_SIZE characters as documented

---
 include/boost/metaparse/v1/cpp98/one_of_c.hpp | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/one_of_c.hpp b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
index 9a13a33..0952bb6 100644
--- a/include/boost/metaparse/v1/cpp98/one_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
@@ -32,6 +32,11 @@ namespace boost
       #endif
       #define BOOST_NO_SCALAR_VALUE LONG_MAX
 
+      #ifdef BOOST_METAPARSE_ONE_OF_C_LIT
+      #  error BOOST_METAPARSE_ONE_OF_C_LIT already defined
+      #endif
+      #define BOOST_METAPARSE_ONE_OF_C_LIT(z, n, unused) lit_c<BOOST_PP_CAT(C, n)>
+
       template <
         BOOST_PP_ENUM_PARAMS_WITH_A_DEFAULT(
           BOOST_METAPARSE_LIMIT_ONE_OF_SIZE,
@@ -39,12 +44,15 @@ namespace boost
           BOOST_NO_SCALAR_VALUE
         )
       >
-      struct one_of_c;
-
-      #ifdef BOOST_METAPARSE_ONE_OF_C_LIT
-      #  error BOOST_METAPARSE_ONE_OF_C_LIT already defined
-      #endif
-      #define BOOST_METAPARSE_ONE_OF_C_LIT(z, n, unused) lit_c<BOOST_PP_CAT(C, n)>
+      struct one_of_c :
+        one_of<
+          BOOST_PP_ENUM(
+            BOOST_METAPARSE_LIMIT_ONE_OF_SIZE,
+            BOOST_METAPARSE_ONE_OF_C_LIT,
+            ~
+          )
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_ONE_OF_C_CASE
       #  error BOOST_METAPARSE_ONE_OF_C_CASE already defined
-- 
2.43.0


From 3252c33b3a7a5a971c7693dd6822b9542c722e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:40 +0000
Subject: [PATCH 05/11] fix: C++98 one_char_except(_c) accepts
 BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE characters as documented

---
 .../boost/metaparse/v1/cpp98/impl/is_none.hpp |  3 +-
 .../metaparse/v1/cpp98/one_char_except.hpp    | 13 ++++++++-
 .../metaparse/v1/cpp98/one_char_except_c.hpp  | 29 ++++++++++++++-----
 3 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
index 7586586..54e7eb9 100644
--- a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/preprocessor/cat.hpp>
 #include <boost/preprocessor/arithmetic/dec.hpp>
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
 #include <boost/preprocessor/repetition/repeat_from_to.hpp>
 
@@ -55,7 +56,7 @@ namespace boost
 
         BOOST_PP_REPEAT_FROM_TO(
           1,
-          BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE),
           BOOST_METAPARSE_DEFINE_IS_NONE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except.hpp b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
index 330b593..a7e161c 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
@@ -35,7 +35,18 @@ namespace boost
           impl::one_char_except_not_used
         )
       >
-      struct one_char_except;
+      struct one_char_except :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(
+            is_none,
+            BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE
+          )<
+            BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, C)
+          >,
+          error::unexpected_character
+        >
+      {};
 
       #ifdef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
       #  error MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE already defined
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
index 5556039..20165a9 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
@@ -31,6 +31,12 @@ namespace boost
   {
     namespace v1
     {
+      #ifdef BOOST_METAPARSE_WRAP
+      #  error BOOST_METAPARSE_WRAP already defined
+      #endif
+      #define BOOST_METAPARSE_WRAP(z, n, unused) \
+        boost::mpl::char_<BOOST_PP_CAT(C, n)>
+
       template <
         BOOST_PP_ENUM_PARAMS_WITH_A_DEFAULT(
           BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
@@ -38,13 +44,22 @@ namespace boost
           1024
         )
       >
-      struct one_char_except_c;
-
-      #ifdef BOOST_METAPARSE_WRAP
-      #  error BOOST_METAPARSE_WRAP already defined
-      #endif
-      #define BOOST_METAPARSE_WRAP(z, n, unused) \
-        boost::mpl::char_<BOOST_PP_CAT(C, n)>
+      struct one_char_except_c :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(
+            is_none,
+            BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE
+          )<
+            BOOST_PP_ENUM(
+              BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+              BOOST_METAPARSE_WRAP,
+              ~
+            )
+          >,
+          error::unexpected_character
+        >
+      {};
 
       #ifdef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
       #  error MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE already defined
-- 
2.43.0


From 7f2c394b09e063811a835fd33046ac8ed04b42a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:50 +0000
Subject: [PATCH 06/11] fix: make tools/string_headers.py run with Python 3

The tool used a tuple parameter, xrange and a binary output file, so no
supported Python could run it. It still runs with Python 2 and generates the
same header.
---
 tools/string_headers.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tools/string_headers.py b/tools/string_headers.py
index 43ef052..d833287 100755
--- a/tools/string_headers.py
+++ b/tools/string_headers.py
@@ -32,7 +32,7 @@ class Namespace(object):
 
     def end(self):
         """Generate the closing part"""
-        for depth in xrange(len(self.names) - 1, -1, -1):
+        for depth in range(len(self.names) - 1, -1, -1):
             self.out_f.write('{0}}}\n'.format(self.prefix(depth)))
 
     def prefix(self, depth=None):
@@ -89,8 +89,9 @@ def macro_name(name):
     return 'BOOST_METAPARSE_V{0}_{1}'.format(VERSION, name)
 
 
-def define_macro(out_f, (name, args, body), undefine=False, check=True):
+def define_macro(out_f, macro, undefine=False, check=True):
     """Generate a macro definition or undefinition"""
+    name, args, body = macro
     if undefine:
         out_f.write(
             '#undef {0}\n'
@@ -129,7 +130,7 @@ def length_limits(max_length_limit, length_limit_step):
     string_len = len(str(max_length_limit))
     return [
         str(i).zfill(string_len) for i in
-        xrange(
+        range(
             length_limit_step,
             max_length_limit + length_limit_step - 1,
             length_limit_step
@@ -139,7 +140,7 @@ def length_limits(max_length_limit, length_limit_step):
 
 def unique_names(count):
     """Generate count unique variable name"""
-    return ('C{0}'.format(i) for i in xrange(0, count))
+    return ('C{0}'.format(i) for i in range(0, count))
 
 
 def generate_take(out_f, steps, line_prefix):
@@ -159,7 +160,7 @@ def generate_take(out_f, steps, line_prefix):
 
 def generate_make_string(out_f, max_step):
     """Generate the make_string template"""
-    steps = [2 ** n for n in xrange(int(math.log(max_step, 2)), -1, -1)]
+    steps = [2 ** n for n in range(int(math.log(max_step, 2)), -1, -1)]
 
     with Namespace(
         out_f,
@@ -203,7 +204,7 @@ def generate_string(out_dir, limits):
     """Generate string.hpp"""
     max_limit = max((int(v) for v in limits))
 
-    with open(filename(out_dir, 'string'), 'wb') as out_f:
+    with open(filename(out_dir, 'string'), 'w') as out_f:
         with IncludeGuard(out_f):
             out_f.write(
                 '\n'
@@ -243,7 +244,7 @@ def generate_string(out_dir, limits):
             ))
 
             out_f.write('\n')
-            for limit in xrange(0, max_limit + 1):
+            for limit in range(0, max_limit + 1):
                 out_f.write(
                     '#define {0} {1}\n'
                     .format(
@@ -267,7 +268,7 @@ def generate_string(out_dir, limits):
                         ','.join(
                             '{0}((s), {1})'
                             .format(macro_name('STRING_AT'), i)
-                            for i in xrange(prev_limit, length_limit)
+                            for i in range(prev_limit, length_limit)
                         )
                     )
                 )
-- 
2.43.0


From 34f5e81ca2a755921f8bd0299356f790516b1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:50 +0000
Subject: [PATCH 07/11] fix: generate string headers up to the requested limit

When the maximum was one above a multiple of the step (always for step 1) the
last step was missing and the header did not support the limit asked for.
---
 tools/string_headers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/string_headers.py b/tools/string_headers.py
index d833287..1ed95f0 100755
--- a/tools/string_headers.py
+++ b/tools/string_headers.py
@@ -132,7 +132,7 @@ def length_limits(max_length_limit, length_limit_step):
         str(i).zfill(string_len) for i in
         range(
             length_limit_step,
-            max_length_limit + length_limit_step - 1,
+            max_length_limit + length_limit_step,
             length_limit_step
         )
     ]
-- 
2.43.0


From b8c111310185a95c78deb32ab0068b085a3fe5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:48 +0000
Subject: [PATCH 08/11] fix: C++11 one_of reports the error of the last
 alternative when none makes progress

As the Getting Started guide explains and the C++98 implementation does.
Putting fail<...> last was of no use for custom error messages.
---
 include/boost/metaparse/v1/cpp11/one_of.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/metaparse/v1/cpp11/one_of.hpp b/include/boost/metaparse/v1/cpp11/one_of.hpp
index d68eee1..ed352f1 100644
--- a/include/boost/metaparse/v1/cpp11/one_of.hpp
+++ b/include/boost/metaparse/v1/cpp11/one_of.hpp
@@ -46,6 +46,15 @@ namespace boost
         {};
       };
 
+      template <class P>
+      struct one_of<P>
+      {
+        typedef one_of type;
+
+        template <class S, class Pos>
+        struct apply : P::template apply<S, Pos> {};
+      };
+
       template <>
       struct one_of<> : fail<error::none_of_the_expected_cases_found> {};
     }
-- 
2.43.0


From 6d687c4a2b3731e07a5b1ee3384fc559dd13ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 09/11] fix: Getting Started includes repeated.hpp, any.hpp
 does not exist

Entering the definitions of the guide failed from section 5.2 on. The headers
in example/getting_started have to be regenerated.
---
 doc/before_10.qbk       | 2 +-
 doc/before_11.qbk       | 2 +-
 doc/before_11_1.qbk     | 2 +-
 doc/before_11_2.qbk     | 2 +-
 doc/before_11_3.qbk     | 2 +-
 doc/before_11_3_1.qbk   | 2 +-
 doc/before_11_3_2.qbk   | 2 +-
 doc/before_12.qbk       | 2 +-
 doc/before_5_2.qbk      | 2 +-
 doc/before_5_2_1.qbk    | 2 +-
 doc/before_5_2_2.qbk    | 2 +-
 doc/before_5_2_3.qbk    | 2 +-
 doc/before_5_2_4.qbk    | 2 +-
 doc/before_6.qbk        | 2 +-
 doc/before_6_1.qbk      | 2 +-
 doc/before_6_2.qbk      | 2 +-
 doc/before_7.qbk        | 2 +-
 doc/before_7_1.qbk      | 2 +-
 doc/before_7_2.qbk      | 2 +-
 doc/before_8.qbk        | 2 +-
 doc/before_8_1.qbk      | 2 +-
 doc/before_8_2.qbk      | 2 +-
 doc/before_9.qbk        | 2 +-
 doc/getting_started.qbk | 2 +-
 24 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/doc/before_10.qbk b/doc/before_10.qbk
index 1854d16..e148c24 100644
--- a/doc/before_10.qbk
+++ b/doc/before_10.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_11.qbk b/doc/before_11.qbk
index 9c3fa1b..1830e32 100644
--- a/doc/before_11.qbk
+++ b/doc/before_11.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_11_1.qbk b/doc/before_11_1.qbk
index 3bafc63..8c09eae 100644
--- a/doc/before_11_1.qbk
+++ b/doc/before_11_1.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_11_2.qbk b/doc/before_11_2.qbk
index 5d015aa..e43189c 100644
--- a/doc/before_11_2.qbk
+++ b/doc/before_11_2.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_11_3.qbk b/doc/before_11_3.qbk
index ddeab4c..03be050 100644
--- a/doc/before_11_3.qbk
+++ b/doc/before_11_3.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_11_3_1.qbk b/doc/before_11_3_1.qbk
index b0ba7f0..7d1ed54 100644
--- a/doc/before_11_3_1.qbk
+++ b/doc/before_11_3_1.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_11_3_2.qbk b/doc/before_11_3_2.qbk
index 03d82da..885189b 100644
--- a/doc/before_11_3_2.qbk
+++ b/doc/before_11_3_2.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_12.qbk b/doc/before_12.qbk
index 054f6bb..f0c4d4e 100644
--- a/doc/before_12.qbk
+++ b/doc/before_12.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_5_2.qbk b/doc/before_5_2.qbk
index 4325b9b..0ca1bd0 100644
--- a/doc/before_5_2.qbk
+++ b/doc/before_5_2.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_5_2_1.qbk b/doc/before_5_2_1.qbk
index edbd415..4e9dae9 100644
--- a/doc/before_5_2_1.qbk
+++ b/doc/before_5_2_1.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_5_2_2.qbk b/doc/before_5_2_2.qbk
index d4e095a..e1a7862 100644
--- a/doc/before_5_2_2.qbk
+++ b/doc/before_5_2_2.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_5_2_3.qbk b/doc/before_5_2_3.qbk
index 495cb93..f5f5542 100644
--- a/doc/before_5_2_3.qbk
+++ b/doc/before_5_2_3.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_5_2_4.qbk b/doc/before_5_2_4.qbk
index 11fe0e4..0a5f875 100644
--- a/doc/before_5_2_4.qbk
+++ b/doc/before_5_2_4.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_6.qbk b/doc/before_6.qbk
index 422f947..233da6a 100644
--- a/doc/before_6.qbk
+++ b/doc/before_6.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_6_1.qbk b/doc/before_6_1.qbk
index 19d556f..9b8154b 100644
--- a/doc/before_6_1.qbk
+++ b/doc/before_6_1.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_6_2.qbk b/doc/before_6_2.qbk
index ab80ef3..4c326e2 100644
--- a/doc/before_6_2.qbk
+++ b/doc/before_6_2.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_7.qbk b/doc/before_7.qbk
index 215c6ca..8041d9d 100644
--- a/doc/before_7.qbk
+++ b/doc/before_7.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_7_1.qbk b/doc/before_7_1.qbk
index fcaf7ae..8b5712a 100644
--- a/doc/before_7_1.qbk
+++ b/doc/before_7_1.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_7_2.qbk b/doc/before_7_2.qbk
index 26553d3..34c2d6a 100644
--- a/doc/before_7_2.qbk
+++ b/doc/before_7_2.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_8.qbk b/doc/before_8.qbk
index 8432385..f4ce968 100644
--- a/doc/before_8.qbk
+++ b/doc/before_8.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_8_1.qbk b/doc/before_8_1.qbk
index de1d3d2..68c9bde 100644
--- a/doc/before_8_1.qbk
+++ b/doc/before_8_1.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_8_2.qbk b/doc/before_8_2.qbk
index 9d91b47..a1dbe0c 100644
--- a/doc/before_8_2.qbk
+++ b/doc/before_8_2.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/before_9.qbk b/doc/before_9.qbk
index 95c04da..282f0e6 100644
--- a/doc/before_9.qbk
+++ b/doc/before_9.qbk
@@ -50,7 +50,7 @@
        boost::mpl::quote1<eval_plus> 
      > 
    >;
-  #include <boost/metaparse/any.hpp>
+  #include <boost/metaparse/repeated.hpp>
 
   using exp_parser7 = 
    build_parser< 
diff --git a/doc/getting_started.qbk b/doc/getting_started.qbk
index 7883ba6..33ff47d 100644
--- a/doc/getting_started.qbk
+++ b/doc/getting_started.qbk
@@ -557,7 +557,7 @@ does it for us. Parsing the `+ <number>` elements is more tricky. Metaparse
 offers different tools for approaching this. The most simple is
 [link repeated `repeated`]:
 
-  > #include <boost/metaparse/any.hpp>
+  > #include <boost/metaparse/repeated.hpp>
 
 [link repeated `repeated`] needs a parser (which parses one `+ <number>`
 element) and it keeps parsing the input with it as long as it can. This will
-- 
2.43.0


From aa25109a3e40e24b8f9270b6360c1d9f7148cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 10/11] fix: the recursive parser of Getting Started accepts
 nested parens

primary_exp2 referred to the non-recursive paren_exp2. The headers in
example/getting_started have to be regenerated.
---
 doc/before_11.qbk          | 2 +-
 doc/before_11_1.qbk        | 2 +-
 doc/before_11_2.qbk        | 2 +-
 doc/before_11_3.qbk        | 2 +-
 doc/before_11_3_1.qbk      | 2 +-
 doc/before_11_3_2.qbk      | 2 +-
 doc/before_12.qbk          | 2 +-
 doc/getting_started.qbk    | 8 ++++----
 doc/getting_started_34.qbk | 2 +-
 9 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/doc/before_11.qbk b/doc/before_11.qbk
index 1830e32..5f04f95 100644
--- a/doc/before_11.qbk
+++ b/doc/before_11.qbk
@@ -308,7 +308,7 @@
 
   using paren_exp3 = middle_of<lparen_token, plus_exp2, rparen_token>;
 
-  using primary_exp2 = one_of<int_token, paren_exp2>;
+  using primary_exp2 = one_of<int_token, paren_exp3>;
 
   using unary_exp2 = 
    foldr_start_with_parser< 
diff --git a/doc/before_11_1.qbk b/doc/before_11_1.qbk
index 8c09eae..c3deba1 100644
--- a/doc/before_11_1.qbk
+++ b/doc/before_11_1.qbk
@@ -308,7 +308,7 @@
 
   using paren_exp3 = middle_of<lparen_token, plus_exp2, rparen_token>;
 
-  using primary_exp2 = one_of<int_token, paren_exp2>;
+  using primary_exp2 = one_of<int_token, paren_exp3>;
 
   using unary_exp2 = 
    foldr_start_with_parser< 
diff --git a/doc/before_11_2.qbk b/doc/before_11_2.qbk
index e43189c..c2d6ba2 100644
--- a/doc/before_11_2.qbk
+++ b/doc/before_11_2.qbk
@@ -308,7 +308,7 @@
 
   using paren_exp3 = middle_of<lparen_token, plus_exp2, rparen_token>;
 
-  using primary_exp2 = one_of<int_token, paren_exp2>;
+  using primary_exp2 = one_of<int_token, paren_exp3>;
 
   using unary_exp2 = 
    foldr_start_with_parser< 
diff --git a/doc/before_11_3.qbk b/doc/before_11_3.qbk
index 03be050..0ad18d6 100644
--- a/doc/before_11_3.qbk
+++ b/doc/before_11_3.qbk
@@ -308,7 +308,7 @@
 
   using paren_exp3 = middle_of<lparen_token, plus_exp2, rparen_token>;
 
-  using primary_exp2 = one_of<int_token, paren_exp2>;
+  using primary_exp2 = one_of<int_token, paren_exp3>;
 
   using unary_exp2 = 
    foldr_start_with_parser< 
diff --git a/doc/before_11_3_1.qbk b/doc/before_11_3_1.qbk
index 7d1ed54..5dbc4e2 100644
--- a/doc/before_11_3_1.qbk
+++ b/doc/before_11_3_1.qbk
@@ -308,7 +308,7 @@
 
   using paren_exp3 = middle_of<lparen_token, plus_exp2, rparen_token>;
 
-  using primary_exp2 = one_of<int_token, paren_exp2>;
+  using primary_exp2 = one_of<int_token, paren_exp3>;
 
   using unary_exp2 = 
    foldr_start_with_parser< 
diff --git a/doc/before_11_3_2.qbk b/doc/before_11_3_2.qbk
index 885189b..2b9f720 100644
--- a/doc/before_11_3_2.qbk
+++ b/doc/before_11_3_2.qbk
@@ -308,7 +308,7 @@
 
   using paren_exp3 = middle_of<lparen_token, plus_exp2, rparen_token>;
 
-  using primary_exp2 = one_of<int_token, paren_exp2>;
+  using primary_exp2 = one_of<int_token, paren_exp3>;
 
   using unary_exp2 = 
    foldr_start_with_parser< 
diff --git a/doc/before_12.qbk b/doc/before_12.qbk
index f0c4d4e..c9d41f7 100644
--- a/doc/before_12.qbk
+++ b/doc/before_12.qbk
@@ -308,7 +308,7 @@
 
   using paren_exp3 = middle_of<lparen_token, plus_exp2, rparen_token>;
 
-  using primary_exp2 = one_of<int_token, paren_exp2>;
+  using primary_exp2 = one_of<int_token, paren_exp3>;
 
   using unary_exp2 = 
    foldr_start_with_parser< 
diff --git a/doc/getting_started.qbk b/doc/getting_started.qbk
index 33ff47d..ec9af59 100644
--- a/doc/getting_started.qbk
+++ b/doc/getting_started.qbk
@@ -1706,7 +1706,7 @@ Let's make `plus_exp` a class. So as a first step, let's forward declare it:
 Now we can write the rest of the parsers and they can refer to `plus_exp2`:
 
   > using paren_exp3 = middle_of<lparen_token, plus_exp2, rparen_token>;
-  > using primary_exp2 = one_of<int_token, paren_exp2>;
+  > using primary_exp2 = one_of<int_token, paren_exp3>;
   > using unary_exp2 = \
   ...> foldr_start_with_parser< \
   ...>   minus_token, \
@@ -1807,8 +1807,8 @@ previous case:
 * `unary_exp2` parsed all of the `-` symbols using `minus_token`. There were
   none of them (the input started with an `h` character).
 * so `unary_exp2` tried to parse it using `primary_exp2`.
-* `primary_exp2` is: [link one_of `one_of`]`<int_token, paren_exp2>`. It tried
-  parsing the input with `int_token` (which failed) and then with `paren_exp2`
+* `primary_exp2` is: [link one_of `one_of`]`<int_token, paren_exp3>`. It tried
+  parsing the input with `int_token` (which failed) and then with `paren_exp3`
   (which failed as well). So [link one_of `one_of`] could not parse the input
   with any of the choices and therefore it failed as well. In such situations
   `one_of` checks which parser made the most progress (consumed the most
@@ -1816,7 +1816,7 @@ previous case:
   the user intended to use, thus it returns the error message coming from that
   parser. In this example none of the parsers could make any progress, in which
   case `one_of` returns the error coming from the last parser in the list. This
-  was `paren_exp2`, and it expects the expression to start with an open paren.
+  was `paren_exp3`, and it expects the expression to start with an open paren.
   This is where the error message came from. The rest of the layers did not
   change or improve this error message so this was the error message displayed
   to the user.
diff --git a/doc/getting_started_34.qbk b/doc/getting_started_34.qbk
index 65760c9..14daf5b 100644
--- a/doc/getting_started_34.qbk
+++ b/doc/getting_started_34.qbk
@@ -1,7 +1,7 @@
 [#getting_started_34]
 
   using paren_exp3 = middle_of<lparen_token, plus_exp2, rparen_token>;
-  using primary_exp2 = one_of<int_token, paren_exp2>;
+  using primary_exp2 = one_of<int_token, paren_exp3>;
   using unary_exp2 = foldr_start_with_parser< minus_token, primary_exp2, boost::mpl::lambda<boost::mpl::negate<boost::mpl::_1>>::type >;
   using mult_exp5 = foldl_start_with_parser< sequence<one_of<times_token, divides_token>, unary_exp2>, unary_exp2, boost::mpl::quote2<binary_op> >;
 
-- 
2.43.0


From f6fd0e94b7417466760b25382669c29fda7fe683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:49 +0000
Subject: [PATCH 11/11] fix: generate_all.py handles section numbers of two
 digits

The notes linking to the definitions so far were missing from section 10 on
and a section such as 1.10 got the one of section 1.
---
 doc/getting_started.qbk | 8 ++++++++
 tools/generate_all.py   | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/doc/getting_started.qbk b/doc/getting_started.qbk
index ec9af59..3fc132d 100644
--- a/doc/getting_started.qbk
+++ b/doc/getting_started.qbk
@@ -1607,6 +1607,7 @@ It can deal with negative numbers correctly.
 [endsect]
 
 [section 10. Dealing with parens]
+[note Note that you can find everything that has been included and defined so far [link before_10 here].]
 
 Our parsers already support the precedence of the different operators. Let's add
 support for parens as well, so users can override the precedence rules when they
@@ -1751,6 +1752,7 @@ Our parser accepts and can deal with parens in the expressions.
 
 [#dealing_with_invalid_input]
 [section 11. Dealing with invalid input]
+[note Note that you can find everything that has been included and defined so far [link before_11 here].]
 
 So far we have been focusing on parsing valid user input. However, users of our
 parsers will make mistakes and we should help them finding the source of the
@@ -1792,6 +1794,7 @@ contains answers to the main questions one has when parsing fails:
   errors more descriptive.
 
 [section 11.1. Improving the error messages]
+[note Note that you can find everything that has been included and defined so far [link before_11_1 here].]
 
 So how can we improve the error messages? Let's look at what went wrong in the
 previous case:
@@ -1827,6 +1830,7 @@ We, the parser authors know: we expect a primary expression there. When
 [endsect]
 
 [section 11.2. Defining custom errors]
+[note Note that you can find everything that has been included and defined so far [link before_11_2 here].]
 
 To be able to return custom error messages (like `missing_primary_expression`)
 to the user, we need to define those error messages first. The error messages
@@ -1914,6 +1918,7 @@ missing closing parens, missing operators, etc) can be covered in a similar way.
 [endsect]
 
 [section 11.3. Missing closing parens]
+[note Note that you can find everything that has been included and defined so far [link before_11_3 here].]
 
 Missing closing parens are common errors. Let's see how our parsers report them:
 
@@ -1997,6 +2002,7 @@ This works as expected now: it tells us that there is a missing paren and it
 points us the open paren which is not closed.
 
 [section 11.3.1. Simplifying the parser]
+[note Note that you can find everything that has been included and defined so far [link before_11_3_1 here].]
 
 Our parser provides useful error messages for missing closing parens, however,
 the implementation of the parser (`plus_exp4`) is long and repetitive: it
@@ -2045,6 +2051,7 @@ Note that other folding parsers have their `f` versions as well (eg.
 
 [endsect]
 [section 11.3.2. Using `foldl_reject_incomplete_start_with_parser` at other places as well]
+[note Note that you can find everything that has been included and defined so far [link before_11_3_2 here].]
 
 We have replaced one [link foldl_start_with_parser `foldl_start_with_parser`]
 with
@@ -2107,6 +2114,7 @@ Let's try different invalid expressions:
 [endsect]
 
 [section 12. Summary]
+[note Note that you can find everything that has been included and defined so far [link before_12 here].]
 
 This tutorial showed you how to build a parser for a calculator language. Now
 that you understand how to do this, you should be able to use the same
diff --git a/tools/generate_all.py b/tools/generate_all.py
index 66a5267..a4a89b2 100755
--- a/tools/generate_all.py
+++ b/tools/generate_all.py
@@ -142,7 +142,7 @@ def what_we_have_so_far_docs(doc_dir, qbk, defs, sections):
       if sec == s and not d.startswith('//')
     ])
 
-  is_section = re.compile('^\[section (([0-9]\.)+)')
+  is_section = re.compile('^\[section (([0-9]+\.)+)')
   note_prefix = \
     '[note Note that you can find everything that has been included and' \
     ' defined so far [link before_'
-- 
2.43.0

