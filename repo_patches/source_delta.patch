From 1e24966b5b72b133cd972cf96b9c32155a67b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:45 +0000
Subject: [PATCH 1/6] fix: assigning from a variant whose content is in heap
 backup assigned the holder instead of the content

After a failed assignment a variant may keep its content in a heap backup.
Assigning from such a variant to one holding another type (or swapping them)
copied the backup_holder itself: an assertion failure in debug builds, and in
release builds a destination claiming a value it does not have.
---
 include/boost/variant/variant.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 33bdcb7..0562d10 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1797,6 +1797,13 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        template <typename RhsT>
+        void internal_visit(const detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            // rhs uses heap backup: assign its content, not the holder itself
+            internal_visit( rhs_content.get(), 1L );
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
@@ -1915,6 +1922,13 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        template <typename RhsT>
+        void internal_visit(detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            // rhs uses heap backup: assign its content, not the holder itself
+            internal_visit( rhs_content.get(), 1L );
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
-- 
2.43.0


From 098126183857a35c002f39ceea9c99ce40d7bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:51 +0000
Subject: [PATCH 2/6] fix: content with a nothrow copy but a throwing move was
 misread after being moved to heap backup

A failed assignment backs up the old content on the heap whenever its move
constructor may throw, but visitation assumed that nothrow-copyable types
never use the backup and read the backup pointer as the content.
---
 include/boost/variant/detail/visitation_impl.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/boost/variant/detail/visitation_impl.hpp b/include/boost/variant/detail/visitation_impl.hpp
index 13fa921..f9ce4f2 100644
--- a/include/boost/variant/detail/visitation_impl.hpp
+++ b/include/boost/variant/detail/visitation_impl.hpp
@@ -139,7 +139,6 @@ visitation_impl_invoke(
     typedef typename mpl::or_<
           NoBackupFlag
         , is_nothrow_move_constructible<T>
-        , has_nothrow_copy<T>
         >::type never_uses_backup;
 
     return (visitation_impl_invoke_impl)(
-- 
2.43.0


From 71733d28651512086e0961a5c3a0c1e43e7aca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:19 +0000
Subject: [PATCH 3/6] fix: fallback after a failed assignment constructed an
 mpl iterator instead of the fallback type

find_fallback_type yielded the position of the fallback type in the type list
rather than the type itself, so after a failed assignment the variant claimed
to hold a default-constructed fallback object that had never been constructed.
---
 include/boost/variant/variant.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 0562d10..eff8e73 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -176,6 +176,16 @@ struct find_fallback_type_pred
     };
 };
 
+// Turns the result of the search (index and iterator) into index and type.
+template <typename SearchResult>
+struct fallback_type_found
+{
+    typedef mpl::pair<
+          typename SearchResult::first
+        , typename mpl::deref< typename SearchResult::second >::type
+        > type;
+};
+
 template <typename Types>
 struct find_fallback_type
 {
@@ -209,12 +219,12 @@ public: // metafunction result
     // [...and return the results of the search:]
     typedef typename mpl::eval_if<
           is_same< second_result_it,end_it >
-        , mpl::if_<
+        , mpl::eval_if<
               is_same< first_result_it,end_it >
-            , mpl::pair< no_fallback_type,no_fallback_type >
-            , first_result_
+            , mpl::identity< mpl::pair< no_fallback_type,no_fallback_type > >
+            , fallback_type_found< first_result_ >
             >
-        , mpl::identity< second_result_ >
+        , fallback_type_found< second_result_ >
         >::type type;
 
 };
-- 
2.43.0


From 1835662cfdb2ad1ac439f24b9cd3b1c025701383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:47 +0000
Subject: [PATCH 4/6] fix: boost::blank was not preferred as fallback type over
 other nothrow default constructible types

The search for boost::blank compared iterators into the type list with
boost::blank, so it never found it unless it came first, contrary to the
documentation.
---
 include/boost/variant/variant.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index eff8e73..a6b36cb 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -176,6 +176,19 @@ struct find_fallback_type_pred
     };
 };
 
+struct find_blank_pred
+{
+    template <typename Iterator>
+    struct apply
+    {
+    private:
+        typedef typename mpl::deref<Iterator>::type t_;
+
+    public:
+        typedef mpl::not_< is_same<t_, boost::blank> > type;
+    };
+};
+
 // Turns the result of the search (index and iterator) into index and type.
 template <typename SearchResult>
 struct fallback_type_found
@@ -209,7 +222,7 @@ private: // helpers, for metafunction result (below)
     typedef typename mpl::iter_fold_if<
           mpl::iterator_range< first_result_it,end_it >
         , first_result_index, mpl::protect< mpl::next<> >
-        , mpl::protect< mpl::not_same_as<boost::blank> >
+        , mpl::protect< find_blank_pred >
         >::type second_result_;
 
     typedef typename second_result_::second second_result_it;
-- 
2.43.0


From 815315ea0a766ab0a284762a9df1096d3f1e9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:34 +0000
Subject: [PATCH 5/6] fix: generic visitors could not visit four or more
 variants

In the C++14 multivisitor overloads the parameter pack of further operands
was followed by the defaulted constraint parameter, so it was never deduced
and apply_visitor(visitor, v1, v2, v3, v4) did not compile for a visitor
without result_type.
---
 .../detail/multivisitors_cpp14_based.hpp      | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/boost/variant/detail/multivisitors_cpp14_based.hpp b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
index 214fdc0..ba81ddd 100644
--- a/include/boost/variant/detail/multivisitors_cpp14_based.hpp
+++ b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
@@ -103,12 +103,11 @@ namespace detail { namespace variant {
 
 }} // namespace detail::variant
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
-        typename boost::disable_if<
-            boost::detail::variant::has_result_type<Visitor>,
-            bool
-        >::type = true)
+    template <class Visitor, class T1, class T2, class T3, class... TN,
+        typename = typename boost::disable_if<
+            boost::detail::variant::has_result_type<Visitor>
+        >::type>
+    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
@@ -125,12 +124,11 @@ namespace detail { namespace variant {
     }
 
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
-        typename boost::disable_if<
-            boost::detail::variant::has_result_type<Visitor>,
-            bool
-        >::type = true)
+    template <class Visitor, class T1, class T2, class T3, class... TN,
+        typename = typename boost::disable_if<
+            boost::detail::variant::has_result_type<Visitor>
+        >::type>
+    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return ::boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
-- 
2.43.0


From e96cf5150ffaba36890c152282a6a0051052ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:36 +0000
Subject: [PATCH 6/6] fix: assignment took the address of new content with a
 possibly overloaded operator&

---
 include/boost/variant/variant.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index a6b36cb..04f88e9 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -38,6 +38,7 @@
 
 #include <boost/detail/reference_content.hpp>
 #include <boost/blank.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/integer/common_factor_ct.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/type_traits/aligned_storage.hpp>
@@ -725,7 +726,7 @@ public: // structors
     backup_assigner(Variant& lhs, int rhs_which, const RhsT& rhs_content)
         : lhs_(lhs)
         , rhs_which_(rhs_which)
-        , rhs_content_(&rhs_content)
+        , rhs_content_(boost::addressof(rhs_content))
         , copy_rhs_content_(&construct_impl<RhsT>)
     {
     }
-- 
2.43.0

