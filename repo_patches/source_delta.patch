From 9dbbfa813d48aa3bd7b76cef7ab187c892909fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 01/99] fix: accept the letter x in language codes

---
 src/framework/language.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index 77bf025..f46fdf0 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -74,7 +74,7 @@ namespace uima {
   Language::init( const char * cpszLanguageCode ) {
     // Check that have 2 chars (a-z) or 2 such pairs separated by - or _
 
-    static const char legalChars[] = "abcdefghijklmnopqrstuvwzyz";
+    static const char legalChars[] = "abcdefghijklmnopqrstuvwxyz";
 
     memset(iv_locale, '\0', 6);                           // Start with all 0's
     memset(iv_lang,   '\0', 3);
-- 
2.43.0


From db08e459c85730d4f2252b4c69d3f57c1f77dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 02/99] fix: an invalid language code keeps no territory

---
 src/framework/language.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index f46fdf0..7c066e2 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -97,8 +97,10 @@ namespace uima {
     } else
       iv_locale[0] = '?';                                 // Illegal length 1,3,4,6,7,...
 
-    if ( strspn(iv_locale, legalChars) < len )            // Illegal characters?
+    if ( strspn(iv_locale, legalChars) < len ) {          // Illegal characters?
+      memset(iv_locale, '\0', 6);                         // Drop any territory
       strcpy(iv_locale, "??");                            // Invalid
+    }
     else {
       if ( len == 5 )
         iv_locale[2] = '-';                               // Normalize to -
-- 
2.43.0


From cf8f8be634f05fd0167d08f5a25ea00971203e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 03/99] fix: a Unicode language code with non-ASCII characters
 is invalid

---
 src/framework/language.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index 7c066e2..88bc797 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -123,7 +123,11 @@ namespace uima {
     u_UCharsToChars(crustrLanguageCode.getBuffer(), buff, uiLen);
     // zero terminate buffer
     buff[uiLen] = char(0);
-    init(buff);
+    // characters outside the invariant set are converted to 0
+    if (strlen(buff) < uiLen)
+      init(INVALID);
+    else
+      init(buff);
   }
 
   Language::Language( TyLanguageAsNumber lLanguageAsNumber ) {
-- 
2.43.0


From d45871cd78ea524ea5e27644bd6e26b5de9478be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 04/99] fix: unset long and double features read as 0

---
 src/cas/uima/lowlevel_fsheap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index a8eb226..5d25ebc 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -490,7 +490,7 @@ namespace uima {
 
       inline INT64 getFSAsLong(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         return (INT64) iv_clTemporary64BitHeap.getHeapValue(tyFS);
@@ -498,7 +498,7 @@ namespace uima {
 
       inline double getFSAsDouble(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         INT64 int64Val = iv_clTemporary64BitHeap.getHeapValue(tyFS);
-- 
2.43.0


From 49ceb06742f0b9c8a932efc41c93a6da5e9900b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 05/99] fix: array copies check that the whole range lies
 inside the array

---
 src/cas/arrayfs.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cas/arrayfs.cpp b/src/cas/arrayfs.cpp
index fd5a85d..bba9057 100644
--- a/src/cas/arrayfs.cpp
+++ b/src/cas/arrayfs.cpp
@@ -91,6 +91,22 @@ namespace uima {
     }
   }
 
+  // the elements uiStart .. uiEnd-1 must all lie inside the array
+  void checkArrayRange(lowlevel::TyFS tyFS, uima::lowlevel::FSHeap * pFSSystem, size_t uiStart, size_t uiEnd, TyMessageId tyContext) {
+    size_t uiSize = pFSSystem->getArraySize(tyFS);
+    if (uiStart > uiEnd || uiEnd > uiSize) {
+      ErrorMessage err(UIMA_MSG_ID_EXC_ARRAY_OUT_OF_BOUNDS);
+      err.addParam(uiEnd);
+      err.addParam(uiSize);
+      UIMA_EXC_THROW_NEW(FSArrayOutOfBoundsException,
+                         UIMA_ERR_FS_ARRAY_OUT_OF_BOUNDS,
+                         err,
+                         ErrorMessage(tyContext),
+                         ErrorInfo::recoverable
+                        );
+    }
+  }
+
   /* ----------------------------------------------------------------------- */
   /*       BasicArrayFS                                                      */
   /* ----------------------------------------------------------------------- */
@@ -170,7 +186,7 @@ namespace uima {
     T* destArray,
     size_t uiDestOffset) const {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1 , UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+      checkArrayRange(iv_tyFS, iv_cas->getHeap(), uiStart, uiEnd, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  size_t srcOffset = uiStart;
@@ -205,12 +221,10 @@ namespace uima {
     size_t uiEnd,
     size_t uiOffset) {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      
 	  size_t srcOffset = uiStart;
 	  size_t numelements = uiEnd-uiStart;
 	  size_t destOffset = uiOffset;
-	  checkArraySize(iv_tyFS, iv_cas->getHeap(), destOffset+numelements-1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+	  checkArrayRange(iv_tyFS, iv_cas->getHeap(), destOffset, destOffset+numelements, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  if (typecode== uima::internal::gs_tyIntArrayType || 
-- 
2.43.0


From 02987a2bb5c513c87e8fb00ab5916b9f275c6cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 06/99] fix: a string taken from the string heap survives heap
 growth

---
 src/cas/uima/lowlevel_fsheap.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index 5d25ebc..bfd3fb4 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -364,9 +364,17 @@ namespace uima {
       int addString(UnicodeStringRef const & uls) {
         size_t l = uls.length();
         TyStringHeap & rtyStringHeap = getStringHeap();
+        // the string may itself reside on the string heap, which increaseHeap may move
+        UChar const * cpSource = uls.getBuffer();
+        UChar const * cpHeap = rtyStringHeap.getHeapStart();
+        bool bOnHeap = cpSource >= cpHeap && cpSource < cpHeap + rtyStringHeap.getTopOfHeap();
+        size_t uiOffset = bOnHeap ? cpSource - cpHeap : 0;
         int p = rtyStringHeap.increaseHeap(l + 1);
+        if (bOnHeap) {
+          cpSource = rtyStringHeap.getHeapStart() + uiOffset;
+        }
         assert( (int)(2*l) == uls.getSizeInBytes() );
-        memcpy(rtyStringHeap.getHeapStart()+p, uls.getBuffer(), uls.getSizeInBytes() );
+        memcpy(rtyStringHeap.getHeapStart()+p, cpSource, uls.getSizeInBytes() );
         return p;
       }
 
-- 
2.43.0


From e8a90cae7b62ffea6bb37dd9d67ea09fab02f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 07/99] fix: a restricted string is checked before it is stored

---
 src/cas/featurestructure.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index c5f167d..5d344e5 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -451,8 +451,6 @@ namespace uima {
     checkValidity(UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
 
-    //!!! Not supporting External at this time. All strings added to StringHeap.
-    int ulsRef = iv_cas->getHeap()->addString(uls);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
 
     uima::lowlevel::TypeSystem const & crTypeSystem = iv_cas->getHeap()->getTypeSystem();
@@ -482,8 +480,9 @@ namespace uima {
       }
     }
 
-
-
+    //!!! Not supporting External at this time. All strings added to StringHeap.
+    // Added only after the checks: uls may reside on the string heap, which may be moved here.
+    int ulsRef = iv_cas->getHeap()->addString(uls);
     iv_cas->getHeap()->setStringValue( iv_tyFS, tyFeat, ulsRef );
   }
 
-- 
2.43.0


From 80dd76b522beba1601141c99471f00ba1955c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 08/99] fix: string accessors check that the feature belongs to
 the type

---
 src/cas/featurestructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 5d344e5..25b8a4b 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -434,6 +434,7 @@ namespace uima {
 
   UnicodeStringRef  FeatureStructure::getStringValue(Feature const & f) const {
     checkValidity(UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
     lowlevel::TyFS tyStringFS = iv_cas->getHeap()->getFSValue(iv_tyFS, tyFeat);
@@ -449,6 +450,7 @@ namespace uima {
 
   void FeatureStructure::setStringValueExternal(Feature const & f, UnicodeStringRef uls) {
     checkValidity(UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
 
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
-- 
2.43.0


From a77195fd77c746efa6016b1f013f445f54dd1ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 09/99] fix: reading a reference refuses features of every
 primitive range

---
 src/cas/featurestructure.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 25b8a4b..29c93c2 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -133,8 +133,12 @@ namespace uima {
     uima::lowlevel::TyFSType rangeType = rTS.getRangeType(internal::FSPromoter::demoteFeature(crFeature));
     if ( rangeType == uima::internal::gs_tyIntegerType
          || rangeType == uima::internal::gs_tyFloatType
-         || rangeType == uima::internal::gs_tyStringType
-         || rTS.getParentType(rangeType) == uima::internal::gs_tyStringType ) {
+         || rangeType == uima::internal::gs_tyBooleanType
+         || rangeType == uima::internal::gs_tyByteType
+         || rangeType == uima::internal::gs_tyShortType
+         || rangeType == uima::internal::gs_tyLongType
+         || rangeType == uima::internal::gs_tyDoubleType
+         || rTS.subsumes(uima::internal::gs_tyStringType, rangeType) ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
       msg.addParam( rTS.getFeatureName( internal::FSPromoter::demoteFeature(crFeature) ) );
       Type t;
-- 
2.43.0


From 5aedd9061adc0c5ec8e91f25fd47bacb42147a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 10/99] fix: storing a default-constructed reference is refused

---
 src/cas/featurestructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 29c93c2..2c1122c 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -197,7 +197,7 @@ namespace uima {
    * checks if anFS is an appropriate value for f.
    */
   void FeatureStructure::checkAppropFeature(Feature const & f, FeatureStructure const & anFS, TyMessageId tyContext) const {
-    if ( (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
+    if ( ! EXISTS(anFS.iv_cas) || (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
       UIMA_EXC_THROW_NEW(InvalidFSObjectException,
                          UIMA_ERR_INVALID_FS_OBJECT,
                          UIMA_MSG_ID_EXC_INVALID_FS_OBJECT,
-- 
2.43.0


From c0ad9e19452f5a7dfc656a387d35874770be45e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 11/99] fix: list-valued feature accessors check structure and
 feature

---
 src/cas/featurestructure.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 2c1122c..5f907e3 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -537,6 +537,8 @@ namespace uima {
   /* ----------------------------------------------------------------------- */
 
   bool FeatureStructure::hasListElements(Feature const & f) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY);
     Type tRangeType;
     f.getRangeType(tRangeType);
     lowlevel::TyFSFeature tyRangeType = internal::FSPromoter::demoteType(tRangeType);
@@ -568,18 +570,26 @@ namespace uima {
   }
 
   ListFS FeatureStructure::getListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return ListFS::getListFSValue(*this, f);
   }
 
   FloatListFS FeatureStructure::getFloatListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return FloatListFS::getListFSValue(*this, f);
   }
 
   IntListFS FeatureStructure::getIntListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return IntListFS::getListFSValue(*this, f);
   }
 
   StringListFS FeatureStructure::getStringListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return StringListFS::getListFSValue(*this, f);
   }
 
-- 
2.43.0


From 32f0ddd54973243963c1dbac12bacc1d7bd6a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 12/99] fix: an FS array fits every feature whose range
 subsumes it

---
 src/cas/featurestructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 5f907e3..b5d18b0 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -169,7 +169,7 @@ namespace uima {
       Type featType;
       f.getRangeType(featType);
       lowlevel::TyFSType featTypeCode = internal::FSPromoter::demoteType(featType);
-      if (aType != featTypeCode && !ts.subsumes(aType,featTypeCode) ) {
+      if (!ts.subsumes(featTypeCode, aType) && !ts.subsumes(aType,featTypeCode) ) {
         ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
         msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
         msg.addParam( ts.getTypeName(aType) );
-- 
2.43.0


From 8f671bf49d44f3535ddf2c5fc0dfc824c4e95fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 13/99] fix: annotation accessors check that the structure is
 an annotation

---
 src/cas/cas.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 521cc8f..1c98679 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1289,21 +1289,30 @@ namespace uima {
   }
 
   CAS * AnnotationFS::getView() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     assert(EXISTS(iv_cas));
+    checkFeature(internal::FSPromoter::promoteFeature(internal::gs_tySofaRefFeature, iv_cas->getHeap()->getTypeSystem()),
+                 UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(iv_tyFS, internal::gs_tySofaRefFeature);
     int annSofaNum = iv_cas->getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
     return iv_cas->getViewBySofaNum(annSofaNum);
   }
 
   size_t AnnotationFS::getBeginPosition( void ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     assert(EXISTS(iv_cas));
+    checkFeature(internal::FSPromoter::promoteFeature(internal::gs_tyBeginPosFeature, iv_cas->getHeap()->getTypeSystem()),
+                 UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     assert(iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyBeginPosFeature) >= 0);
     return(size_t)iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyBeginPosFeature);
   }
 
 
   size_t AnnotationFS::getEndPosition( void ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     assert(EXISTS(iv_cas));
+    checkFeature(internal::FSPromoter::promoteFeature(internal::gs_tyEndPosFeature, iv_cas->getHeap()->getTypeSystem()),
+                 UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     assert(iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyEndPosFeature) >= 0);
     return(size_t)iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyEndPosFeature);
   }
-- 
2.43.0


From 1cdf3201e2152ba636be137286f1be70671b2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 14/99] fix: primitive accessors refuse features of range TOP

---
 src/cas/featurestructure.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index b5d18b0..ea1f86b 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -153,6 +153,16 @@ namespace uima {
     }
   }
 
+  static bool isPrimitiveType(lowlevel::TyFSType aType) {
+    return aType == uima::internal::gs_tyIntegerType
+           || aType == uima::internal::gs_tyFloatType
+           || aType == uima::internal::gs_tyBooleanType
+           || aType == uima::internal::gs_tyByteType
+           || aType == uima::internal::gs_tyShortType
+           || aType == uima::internal::gs_tyLongType
+           || aType == uima::internal::gs_tyDoubleType;
+  }
+
   /**
    * checks if the range type of the feature subsumes the aType.
    * In other words, checks if an FS of aType is an appropriate value for f.
@@ -180,7 +190,9 @@ namespace uima {
                            ErrorInfo::recoverable
                           );
       }
-    } else if ( !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType ) ) {
+    } else if ( !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType )
+                // primitive values are not references
+                || ( isPrimitiveType(aType) && ts.getRangeType(internal::FSPromoter::demoteFeature(f)) != aType ) ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
       msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
       msg.addParam( ts.getTypeName(aType) );
-- 
2.43.0


From 5fca4b1ff104d47c6e08c733e74a1c11c91f8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 15/99] fix: an annotation made before its view has a Sofa
 belongs to the initial view

---
 src/cas/cas.cpp              | 8 ++++++++
 src/cas/featurestructure.cpp | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 1c98679..442f2d8 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1170,6 +1170,10 @@ namespace uima {
       lowlevel::TyFS annSofaAddr = getHeap()->getFSValue(tyCell, internal::gs_tySofaRefFeature);
       if ( annSofaAddr != internal::FSPromoter::demoteFS(getSofa())) {
         // does not agree. Get appropriate View for annotation Sofa
+        // (only the initial view may hold annotations without having a Sofa yet)
+        if (annSofaAddr == uima::lowlevel::FSHeap::INVALID_FS) {
+          return *getInitialView();
+        }
         int annSofaNum = getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
         return *getViewBySofaNum(annSofaNum);
       }
@@ -1294,6 +1298,10 @@ namespace uima {
     checkFeature(internal::FSPromoter::promoteFeature(internal::gs_tySofaRefFeature, iv_cas->getHeap()->getTypeSystem()),
                  UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(iv_tyFS, internal::gs_tySofaRefFeature);
+    if (annSofaAddr == uima::lowlevel::FSHeap::INVALID_FS) {
+      // only the initial view may hold annotations without having a Sofa yet
+      return iv_cas->getInitialView();
+    }
     int annSofaNum = iv_cas->getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
     return iv_cas->getViewBySofaNum(annSofaNum);
   }
diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index ea1f86b..35e403c 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -293,6 +293,10 @@ namespace uima {
       lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(resultAddr, internal::gs_tySofaRefFeature);
       if ( annSofaAddr != internal::FSPromoter::demoteFS(iv_cas->getSofa())) {
         // does not agree. Get appropriate View for annotation Sofa
+        // (only the initial view may hold annotations without having a Sofa yet)
+        if (annSofaAddr == uima::lowlevel::FSHeap::INVALID_FS) {
+          return FeatureStructure(resultAddr, *iv_cas->getInitialView());
+        }
         int annSofaNum = iv_cas->getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
         CAS* annTcas = iv_cas->getViewBySofaNum(annSofaNum);
         return FeatureStructure(resultAddr, (CAS &)*annTcas);
-- 
2.43.0


From 58842d92f154ecf4b4f24595448c4ea8d423e40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 16/99] fix: the boolean, byte, short, long and double types
 and their array types are final

Only integer, float and string and their arrays refused subtypes and
features; a subtype of e.g. uima.cas.LongArray was accepted although its
instances could not be represented.
---
 src/cas/uima/lowlevel_typesystem.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/lowlevel_typesystem.hpp b/src/cas/uima/lowlevel_typesystem.hpp
index 2e30dbf..882869e 100644
--- a/src/cas/uima/lowlevel_typesystem.hpp
+++ b/src/cas/uima/lowlevel_typesystem.hpp
@@ -303,7 +303,17 @@ namespace uima {
                && (tyType != uima::internal::gs_tyFSArrayType)
                && (tyType != uima::internal::gs_tyIntArrayType)
                && (tyType != uima::internal::gs_tyFloatArrayType)
-               && (tyType != uima::internal::gs_tyStringArrayType);
+               && (tyType != uima::internal::gs_tyStringArrayType)
+               && (tyType != uima::internal::gs_tyBooleanType)
+               && (tyType != uima::internal::gs_tyByteType)
+               && (tyType != uima::internal::gs_tyShortType)
+               && (tyType != uima::internal::gs_tyLongType)
+               && (tyType != uima::internal::gs_tyDoubleType)
+               && (tyType != uima::internal::gs_tyBooleanArrayType)
+               && (tyType != uima::internal::gs_tyByteArrayType)
+               && (tyType != uima::internal::gs_tyShortArrayType)
+               && (tyType != uima::internal::gs_tyLongArrayType)
+               && (tyType != uima::internal::gs_tyDoubleArrayType);
       }
 
       /**
-- 
2.43.0


From 9cc34db25495a8cf55f8f233faf2c82251bc3cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 17/99] fix: a feature records its creator

createFeature stored the name of the feature as its creator ID.
---
 src/cas/lowlevel_typesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index cb92f04..3d47ad3 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -273,7 +273,7 @@ namespace uima {
       iv_vecRangeTypes.push_back(tyRange);
       iv_vecMultiRefs.push_back(multiRef);
       iv_vecIntroducedFeatures[tyIntro].push_back(newFeature);
-      iv_vecFeatureCreatorIDs.push_back(crusName);
+      iv_vecFeatureCreatorIDs.push_back(crusCreatorID);
 
       assert( debugIsTreeConsistent() );
       return newFeature;
-- 
2.43.0


From 53cecaf0f23de4e063768d5626e0cc6050e43293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 18/99] fix: a sorted index removes the structure itself, not
 an equal one

---
 src/cas/lowlevel_internal_indexes.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 38d5d14..0bdad3f 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -650,8 +650,11 @@ namespace uima {
 
       void OrderedSingleIndex::remove(TyFS fs) {
         IndexComparatorLess comp(iv_cpComparator, iv_crFSHeap);
+        // several structures may be equal to fs: remove fs itself
         TyStructures::iterator it = lower_bound( iv_tyStructures.begin(), iv_tyStructures.end(), fs, comp);
-        if ( it != iv_tyStructures.end() ) {
+        TyStructures::iterator itEnd = upper_bound( it, iv_tyStructures.end(), fs, comp);
+        it = std::find(it, itEnd, fs);
+        if ( it != itEnd ) {
           iv_tyStructures.erase(it);
         }
       }
-- 
2.43.0


From ee8fbf0a85a8385e1287bf4d1db7dd9ada3c8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 19/99] fix: a set index removes the structure itself, not an
 equal one

---
 src/cas/uima/lowlevel_internal_indexes.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index 9abe1c2..59ccb83 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -206,7 +206,11 @@ namespace uima {
         }
         void remove(TyFS fs) {
           assert( EXISTS(iv_pStructures) );
-          (void) iv_pStructures->erase(fs);
+          // the set may hold another structure equal to fs
+          TyStructures::iterator it = iv_pStructures->find(fs);
+          if (it != iv_pStructures->end() && *it == fs) {
+            iv_pStructures->erase(it);
+          }
         }
 
         void reset();
-- 
2.43.0


From c84fb06dfa3275823ba7e164558a09524455aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 20/99] fix: removing a structure updates merged indexes and
 forgets structures without index

---
 src/cas/uima/lowlevel_indexrepository.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index c4b4ea6..cbb5514 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -39,6 +39,7 @@
 #include "uima/pragmas.hpp"
 
 
+#include <algorithm>
 #include <map>
 #include <list>
 #include "uima/lowlevel_fsheap.hpp"
@@ -268,8 +269,19 @@ namespace uima {
       TyFSType type = iv_rFSHeap.getType(fs);
       UIMA_TPRINT("Removing fs of type " << iv_rFSHeap.getTypeSystem().getTypeName(type) << ": " << (int) fs);
       assert( type < iv_indexes.size() );
+      // composite indexes have to be updated
+      iv_cacheDirtyFlags[type].clear();
       std::vector<internal::SingleIndex*>& typeIndexes = iv_indexes[type];
 
+      //if there is no index defined for this type
+      if (typeIndexes.empty()) {
+        std::vector<TyFS>::iterator itUndef = std::find(iv_undefinedindex.begin(), iv_undefinedindex.end(), fs);
+        if (itUndef != iv_undefinedindex.end()) {
+          iv_undefinedindex.erase(itUndef);
+        }
+        return;
+      }
+
       std::vector<internal::SingleIndex*>::iterator it;
       for (it = typeIndexes.begin(); it != typeIndexes.end(); ++it) {
         assert( (*it)->getType() == type );
@@ -281,12 +293,19 @@ namespace uima {
     inline void IndexRepository::add(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
       internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      TyFSType type = iv_rFSHeap.getType(fs);
+      iv_cacheDirtyFlags[type].clear();
+      if (!iv_isUsed[type]) {
+        iv_isUsed[type] = true;
+        iv_usedIndexes.push_back(type);
+      }
       ix->add(fs);
     }
 
     inline void IndexRepository::remove(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
       internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      iv_cacheDirtyFlags[iv_rFSHeap.getType(fs)].clear();
       ix->remove(fs);
     }
 
-- 
2.43.0


From 25ec06ead2fe6c8e352c8f72a5c6a785c434b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 21/99] fix: moveTo of a filtered iterator skips filtered
 structures

---
 src/cas/lowlevel_index.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_index.cpp b/src/cas/lowlevel_index.cpp
index d071c5c..fd91e11 100644
--- a/src/cas/lowlevel_index.cpp
+++ b/src/cas/lowlevel_index.cpp
@@ -172,7 +172,11 @@ namespace uima {
 
       bool moveTo(TyFS fs) {
         assert( EXISTS(iv_pIterator) );
-        return iv_pIterator->moveTo(fs);
+        if (! iv_pIterator->moveTo(fs)) {
+          return false;
+        }
+        moveToNextUnfiltered();
+        return iv_pIterator->isValid();
       }
 
     };
-- 
2.43.0


From fd8c7ae2f00f1e299e6e2a35da27702bff136fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 22/99] fix: moveTo in a bag index stands on the structure

---
 src/cas/lowlevel_internal_indexes.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 0bdad3f..90529a2 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -165,9 +165,6 @@ namespace uima {
 
           if (iv_cpComparator == NULL) {
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-            if (cit != iv_crStructures.end()) {
-              ++cit;
-            }
           } else {
             // first try to find the same fs
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-- 
2.43.0


From 8810c8d8ad60c7356a8f7ef342ca38d3d0cb0767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 23/99] fix: a cursor without index can be copied

---
 src/cas/fsiterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cas/fsiterator.cpp b/src/cas/fsiterator.cpp
index deb54e5..b8ca987 100644
--- a/src/cas/fsiterator.cpp
+++ b/src/cas/fsiterator.cpp
@@ -76,7 +76,9 @@ namespace uima {
     }
     iv_pIterator = NULL;
     iv_cas = crOther.iv_cas;
-    iv_pIterator = crOther.iv_pIterator->clone();
+    if (crOther.iv_pIterator != NULL) {
+      iv_pIterator = crOther.iv_pIterator->clone();
+    }
     return *this;
   }
 
-- 
2.43.0


From 474749fbca139b73ad472136acd2b1de87e97f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 24/99] fix: a restricted string can be a key feature

---
 src/cas/lowlevel_indexcomparator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexcomparator.cpp b/src/cas/lowlevel_indexcomparator.cpp
index bea89cc..8f533ab 100644
--- a/src/cas/lowlevel_indexcomparator.cpp
+++ b/src/cas/lowlevel_indexcomparator.cpp
@@ -96,7 +96,7 @@ namespace uima {
           iv_appropTypes.push_back( BUILTIN_TYPE_INTEGER );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_FLOAT)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_FLOAT );
-        } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING)) {
+        } else if (crTypeSystem.subsumes( crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING), tyAppropType)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_STRING );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_BOOLEAN)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_BOOLEAN );
-- 
2.43.0


From ef26a7a56bbefcb8ad73c07f7493b1166d08ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 25/99] fix: subiterators stay in their sequence when moving
 backward

---
 src/cas/cas.cpp | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 442f2d8..6f44dae 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1438,6 +1438,14 @@ namespace uima {
       size_t iv_uiBegPos;
       size_t iv_uiEndPos;
       TyFS   iv_tyMoveToFirstFS;
+
+      // leave the span, there is no way back but moveToFirst(), moveToLast() and moveTo()
+      void invalidate() {
+        iv_pIterator->moveToLast();
+        if (iv_pIterator->isValid()) {
+          iv_pIterator->moveToNext();
+        }
+      }
     public:
       SubIterator(uima::lowlevel::FSHeap & heap, size_t uiBeginPos, size_t uiEndPos, IndexIterator* pIterator):
           iv_heap(&heap),
@@ -1492,12 +1500,16 @@ namespace uima {
 
       void moveToPrevious() {
         assert( isValid() );
-        iv_pIterator->moveToPrevious();
-        if (isValid()) {
-          if (iv_pIterator->get() == iv_tyMoveToFirstFS) {
-            iv_pIterator->moveToPrevious();
-          }
+        // annotations before the first one of this iterator may start in the span, too
+        TyFS fsCurrent = get();
+        moveToFirst();
+        TyFS fsFirst = get();
+        iv_pIterator->moveTo(fsCurrent);
+        if (fsCurrent == fsFirst) {
+          invalidate();
+          return;
         }
+        iv_pIterator->moveToPrevious();
       }
 
       void moveToLast() {
@@ -1620,6 +1632,25 @@ namespace uima {
 
       }
 
+      void moveToPrevious() {
+        assert( isValid() );
+        // the previous annotation is the one moveToNext() comes from
+        TyFS fsCurrent = get();
+        TyFS fsPrevious = uima::lowlevel::FSHeap::INVALID_FS;
+        int iCurrBeginPos = iv_heap->getIntValue(fsCurrent, uima::internal::gs_tyBeginPosFeature);
+        moveToFirst();
+        while (isValid() && get() != fsCurrent
+               && iv_heap->getIntValue(get(), uima::internal::gs_tyBeginPosFeature) <= iCurrBeginPos) {
+          fsPrevious = get();
+          moveToNext();
+        }
+        if (fsPrevious == uima::lowlevel::FSHeap::INVALID_FS) {
+          invalidate();
+          return;
+        }
+        moveTo(fsPrevious);
+      }
+
       IndexIterator* clone() const {
         assert( EXISTS(iv_heap) );
         assert( EXISTS(iv_pIterator) );
-- 
2.43.0


From da5f906f2952775ddc9f48c8654143c41e333611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:32 +0000
Subject: [PATCH 26/99] fix: a Sofa stream refuses positions outside its data

---
 src/cas/sofastream.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index be3d237..f230d89 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -492,15 +492,33 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    // the range of offsets that stay inside the data
+    INT64 minOffset = 0;
+    INT64 maxOffset = iv_size;
+    if (origin == SEEK_CUR) {
+      minOffset = -iv_curpos;
+      maxOffset = iv_size - iv_curpos;
+    }
+    bool inside = (offset >= minOffset && offset <= maxOffset);
+
     switch (origin) {
     case SEEK_SET:
+      if (!inside) {
+        return SOFASTREAMHANDLER_EOF;
+      }
       iv_curpos = offset;
       break ;
     case SEEK_CUR:
+      if (!inside) {
+        return SOFASTREAMHANDLER_EOF;
+      }
       iv_curpos += offset;
       break ;
     case SEEK_END:
-      iv_curpos = getTotalStreamSizeInBytes() - offset;
+      if (!inside) {
+        return SOFASTREAMHANDLER_EOF;
+      }
+      iv_curpos = iv_size - offset;
       break ;
     default:
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_SOFADATASTREAM_INVALID_SEEK_ORIGIN);
-- 
2.43.0


From 10ab2ed430c56f9fb177309412efaf564b2cd499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 27/99] fix: a Sofa stream over an array follows the data when
 heaps grow

---
 src/cas/sofastream.cpp      | 44 +++++++++++++++++++++++++++----------
 src/cas/uima/sofastream.hpp |  4 ++++
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index f230d89..e4a6a3a 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -291,7 +291,8 @@ namespace uima {
       iv_isfloatarray(false), iv_isbooleanarray(false),
       iv_isbytearray(false),iv_isshortarray(false),
       iv_islongarray(false),iv_isdoublearray(false),
-      iv_curpos(0) {
+      iv_curpos(0), iv_isopen(false),
+      iv_tyArray(uima::lowlevel::FSHeap::INVALID_FS) {
     iv_psofafs =  (SofaFS*) new FeatureStructure(aSofaFS.iv_tyFS,aSofaFS.getCAS());
     assert(iv_psofafs->isValid());
     assert(iv_psofafs->getType().getName().compare( UnicodeStringRef(CAS::TYPE_NAME_SOFA)) == 0 );
@@ -311,7 +312,7 @@ namespace uima {
     Feature stringfeat = type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFASTRING);
     Feature arrayfeat = type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFAARRAY);
 
-    iv_curpos=0;
+    close();
     if  ( !iv_psofafs->isUntouchedFSValue(stringfeat) ) {     //local sofa - data in string
       //convert string to UTF-8
       UErrorCode errorcode = U_ZERO_ERROR ;
@@ -354,33 +355,27 @@ namespace uima {
       FeatureStructure arrayFS = iv_psofafs->getFSValue(arrayfeat);
       Type rangeType = arrayFS.getType();
       UnicodeStringRef rangeTypeName = rangeType.getName();
+      iv_tyArray = arrayFS.iv_tyFS;
 
       if (rangeTypeName.compare(CAS::TYPE_NAME_INTEGER_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size = iv_psofafs->getIntArrayFSValue(arrayfeat).size()*sizeof(int);
         iv_isintarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_FLOAT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getFloatArrayFSValue(arrayfeat).size()*sizeof(float);
         iv_isfloatarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BOOLEAN_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getBooleanArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbooleanarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BYTE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getByteArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbytearray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_SHORT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get16BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getShortArrayFSValue(arrayfeat).size()*sizeof(short);
         iv_isshortarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_LONG_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getLongArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_islongarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_DOUBLE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getDoubleArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_isdoublearray = true;
       } else {
@@ -402,9 +397,27 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    iv_isopen = true;
     return 0;
   }
 
+  // the data of an array moves when the CAS heaps grow, so locate it on each use
+  void LocalSofaDataStream::locateArrayData() {
+    if (iv_tyArray == uima::lowlevel::FSHeap::INVALID_FS) {
+      return;
+    }
+    uima::lowlevel::FSHeap & heap = *iv_psofafs->getCAS().getHeap();
+    if (iv_isintarray || iv_isfloatarray) {
+      iv_psofadata = (char*) heap.getCArrayFromFS(iv_tyArray);
+    } else if (iv_isbooleanarray || iv_isbytearray) {
+      iv_psofadata = (char*) heap.get8BitArray(iv_tyArray);
+    } else if (iv_isshortarray) {
+      iv_psofadata = (char*) heap.get16BitArray(iv_tyArray);
+    } else {
+      iv_psofadata = (char*) heap.get64BitArray(iv_tyArray);
+    }
+  }
+
   //getTotalStreamSize
   INT64 LocalSofaDataStream::getTotalStreamSizeInBytes() {
     if (iv_size==0) {
@@ -421,7 +434,7 @@ namespace uima {
   //read
   int LocalSofaDataStream::read( void * pbuffer, int elementSize, size_t numElements) {
     //check valid sofa data
-    if (iv_psofadata == NULL) {
+    if (!iv_isopen) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(iv_psofafs->getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
@@ -472,6 +485,7 @@ namespace uima {
     }
 
     //read bytes
+    locateArrayData();
     memcpy(pbuffer,iv_psofadata+iv_curpos,numbytesread);
 
     //move current read position
@@ -482,7 +496,7 @@ namespace uima {
 
   //seek
   int LocalSofaDataStream::seek(INT64 offset, int origin) {
-    if (iv_psofadata == NULL) {
+    if (!iv_isopen) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(iv_psofafs->getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
@@ -543,11 +557,19 @@ namespace uima {
     iv_isstring=false;
     iv_isintarray=false;
     iv_isfloatarray=false;
+    iv_isbooleanarray=false;
+    iv_isbytearray=false;
+    iv_isshortarray=false;
+    iv_islongarray=false;
+    iv_isdoublearray=false;
+    iv_tyArray=uima::lowlevel::FSHeap::INVALID_FS;
+    iv_isopen=false;
   }
 
   //getDataPointer
   const TySofaDataPointer LocalSofaDataStream::getDataPointer() {
     TySofaDataPointer dataptr=NULL;
+    locateArrayData();
     if (iv_psofadata != NULL) {
       dataptr = (TySofaDataPointer) iv_psofadata;
     }
diff --git a/src/cas/uima/sofastream.hpp b/src/cas/uima/sofastream.hpp
index a2e7d2c..52555c7 100644
--- a/src/cas/uima/sofastream.hpp
+++ b/src/cas/uima/sofastream.hpp
@@ -220,6 +220,10 @@ namespace uima {
     bool iv_isshortarray;         //is sofa data stored in a FS array of floats
     bool iv_islongarray;         //is sofa data stored in a FS array of floats
     bool iv_isdoublearray;         //is sofa data stored in a FS array of floats
+    bool iv_isopen;               //is the stream open
+    lowlevel::TyFS iv_tyArray;    //the FS array holding the data, if any
+
+    void locateArrayData();       //find the data of the FS array
   };
 
 
-- 
2.43.0


From de37e84581fec52cd6a3ecbedf8b1b731ca32f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 28/99] fix: a view's text can be set from text the CAS holds

---
 src/cas/cas.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 6f44dae..6ac1774 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -698,12 +698,14 @@ namespace uima {
     if (isbaseCas) {
       invalidBaseCasMethod();
     }
+    // the text may come from the string heap, which moves when it grows
+    icu::UnicodeString const ownText(text.getBuffer(), text.length());
     SofaFS thisSofa = getSofa();
     if (!thisSofa.isValid()) {
       thisSofa = createInitialSofa(UnicodeStringRef("text"));
     }
-    copyDocumentString(text);
-    thisSofa.setLocalSofaData(text);
+    copyDocumentString(ownText);
+    thisSofa.setLocalSofaData(ownText);
   }
 
   // internal use only
@@ -1074,13 +1076,15 @@ namespace uima {
     if (pDoc.length() == 0) {
       return;
     }
-    if (iv_copyOfDocument)
-      delete [] iv_copyOfDocument;
     size_t len = pDoc.length();
-    iv_copyOfDocument = new UChar [len + 1];
-    memcpy(iv_copyOfDocument, pDoc.getBuffer(), 2*len);
+    // the text may come from the current copy, so make the new one first
+    UChar * newCopy = new UChar [len + 1];
+    memcpy(newCopy, pDoc.getBuffer(), 2*len);
     // The internal document must be 0 terminated!
-    iv_copyOfDocument[len] = 0;
+    newCopy[len] = 0;
+    if (iv_copyOfDocument)
+      delete [] iv_copyOfDocument;
+    iv_copyOfDocument = newCopy;
     iv_cpDocument = iv_copyOfDocument;
     iv_uiDocumentLength = len;
   }
-- 
2.43.0


From 3ba3c08e9530d36831de3dcfb3244398fe6ed3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 29/99] fix: setting an empty text replaces the view's text

---
 src/cas/cas.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 6ac1774..7b1c58a 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1026,8 +1026,8 @@ namespace uima {
     if (thisSofa.isValid()) {
       lowlevel::TyFS tySofa = internal::FSPromoter::demoteFS(thisSofa);
       UnicodeStringRef pDoc = iv_heap->getStringValue(tySofa, internal::gs_tySofaStringFeature);
-      if (pDoc.length() > 0) {
-        copyDocumentString(pDoc);
+      copyDocumentString(pDoc);
+      if (pDoc.length() > 0 || iv_tyDocumentAnnotation != uima::lowlevel::FSHeap::INVALID_FS) {
         getDocumentAnnotation(); // create DocumentAnnotation if necessary
         iv_heap->setIntValue( iv_tyDocumentAnnotation, uima::internal::gs_tyEndPosFeature,
                               (int) iv_uiDocumentLength);
@@ -1074,6 +1074,11 @@ namespace uima {
     // must have a 2nd copy of the document because the copy in the stringHeap will
     // move when the stringHeap grows, unlike the older segmented heap.
     if (pDoc.length() == 0) {
+      if (iv_copyOfDocument)
+        delete [] iv_copyOfDocument;
+      iv_copyOfDocument = NULL;
+      iv_cpDocument = NULL;
+      iv_uiDocumentLength = 0;
       return;
     }
     size_t len = pDoc.length();
-- 
2.43.0


From f48f6c953a7df83190426ea866d9c2aad5081d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:25 +0000
Subject: [PATCH 30/99] fix: replacing a view's text keeps its document
 annotation indexed once

---
 src/cas/cas.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 7b1c58a..2bf11e5 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1029,10 +1029,10 @@ namespace uima {
       copyDocumentString(pDoc);
       if (pDoc.length() > 0 || iv_tyDocumentAnnotation != uima::lowlevel::FSHeap::INVALID_FS) {
         getDocumentAnnotation(); // create DocumentAnnotation if necessary
+        // re-index the annotation, which can only be found under its old end
+        iv_indexRepository->remove(iv_tyDocumentAnnotation);
         iv_heap->setIntValue( iv_tyDocumentAnnotation, uima::internal::gs_tyEndPosFeature,
                               (int) iv_uiDocumentLength);
-        // re-index the annotation
-        iv_indexRepository->remove(iv_tyDocumentAnnotation);
         iv_indexRepository->add(iv_tyDocumentAnnotation);
       }
     }
-- 
2.43.0


From 97c22cebab1d5a9aa3c9c066645d559e6553462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 31/99] fix: Sofa string data can be set from text the CAS
 holds

---
 src/cas/cas.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 2bf11e5..4bac813 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -721,11 +721,13 @@ namespace uima {
     if (isbaseCas) {
       invalidBaseCasMethod();
     }
+    // the text may come from the string heap, which moves when it grows
+    icu::UnicodeString const ownText(text.getBuffer(), text.length());
     SofaFS thisSofa = getSofa();
     if (!thisSofa.isValid()) {
       thisSofa = createInitialSofa(mimetype);
     }
-    setDocumentText(text);
+    setDocumentText(ownText);
   }
 
   UnicodeStringRef CAS::getDocumentText()const {
-- 
2.43.0


From 87d6c6943a7649f449123f7f1b2d4f535ebacadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 32/99] fix: deserialization keeps a view's index when no Sofa
 exists

---
 src/cas/internal_casdeserializer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 284bb5c..550be03 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -644,6 +644,8 @@ namespace uima {
           assert( *loopit < iMaxOffset );
           crIndexRep->add( *loopit );
         }
+      } else {
+        cit++;
       }
 
       // book keeping for all Sofas
-- 
2.43.0


From 215ef958c21f092ca6322510062d503a6d871f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 33/99] fix: index keys of a blob are loaded before its indexes

---
 src/cas/internal_casdeserializer.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 550be03..fff2591 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -900,15 +900,9 @@ namespace uima {
       }
       intPtr += 1 + uiRefHeapLength;
 
-      // create FS indexes
-      size_t uiIndexedFSLength = intPtr[0];
-      if (uiIndexedFSLength > 0) {
-        uima::CAS * baseCAS = rCAS.getBaseCas();
-        iv_vecIndexedFSs.resize(uiIndexedFSLength);
-        memcpy(&iv_vecIndexedFSs[0], intPtr+1, 4*uiIndexedFSLength);
-        deserializeIndexedFSs(iv_vecIndexedFSs, *baseCAS);
-      }
-      intPtr += 1 + uiIndexedFSLength;
+      // FS indexes: created at the end, as their keys can be on any heap
+      int * pIndexedFSs = intPtr;
+      intPtr += 1 + intPtr[0];
 
       //8bit heap
       ty8BitHeap.reset();
@@ -941,8 +935,14 @@ namespace uima {
         memcpy(ty64BitHeap.getHeapStart(), intPtr+1, 8*ui64BitHeapLength);
       }
 
-
-
+      // create FS indexes
+      size_t uiIndexedFSLength = pIndexedFSs[0];
+      if (uiIndexedFSLength > 0) {
+        uima::CAS * baseCAS = rCAS.getBaseCas();
+        iv_vecIndexedFSs.resize(uiIndexedFSLength);
+        memcpy(&iv_vecIndexedFSs[0], pIndexedFSs+1, 4*uiIndexedFSLength);
+        deserializeIndexedFSs(iv_vecIndexedFSs, *baseCAS);
+      }
     }
 
     void CASDeserializer::deserializeData(uima::internal::SerializedCAS const & crSerializedCAS,
-- 
2.43.0


From 5700aa14160bf4627d75b7e1f7d7c79380f90479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 34/99] fix: deserializing a blob leaves nothing of the
 previous content

---
 src/cas/internal_casdeserializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index fff2591..a187eb5 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -857,6 +857,9 @@ namespace uima {
       CHECK(intPtr[0] == ((int*)key)[0]);
       CHECK(intPtr[1] == 1);
 
+      // nothing of the previous content may survive
+      rCAS.getBaseCas()->reset();
+
       // get a heap of references
       uima::internal::CASImpl & crCASImpl = uima::internal::CASImpl::promoteCAS(rCAS);
       uima::lowlevel::FSHeap & crHeap = crCASImpl.getHeap();
-- 
2.43.0


From 405ff389b4d59bb7d3c0adcc6c7c34f27dac43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 35/99] fix: byte swapping a blob keeps 64-bit values

---
 src/cas/internal_casdeserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index a187eb5..62dd79b 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -734,7 +734,7 @@ namespace uima {
       output[5] = ((char*)&in)[2];
       output[6] = ((char*)&in)[1];
       output[7] = ((char*)&in)[0];
-      in = *(int*)output;
+      memcpy(&in, output, sizeof(in));
       return in;
     }
 
-- 
2.43.0


From 947c9e0da8b4133631419d490c525c43a0b6d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 36/99] fix: a document annotation without Sofa survives
 deserialization

---
 src/cas/cas.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 4bac813..36b97e0 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1052,6 +1052,9 @@ namespace uima {
     iv_tyDocumentAnnotation = internal::FSPromoter::demoteFS(ait.get());
     iv_uiDocumentLength = ait.get().getEndPosition();
     uima::lowlevel::TyFS sofaAddr = iv_heap->getFSValue(iv_tyDocumentAnnotation, internal::gs_tySofaRefFeature);
+    if (sofaAddr == uima::lowlevel::FSHeap::INVALID_FS) {
+      return; // made before the view had a Sofa
+    }
     UnicodeStringRef pDoc = iv_heap->getStringValue(sofaAddr, internal::gs_tySofaStringFeature);
     copyDocumentString(pDoc);
   }
-- 
2.43.0


From efd9069932b248bd78fbd13415fd8aafcf79e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 37/99] fix: deserialization restores the text of a view
 without indexed annotations

---
 src/cas/cas.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 36b97e0..bc40cd7 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1021,6 +1021,8 @@ namespace uima {
   void CAS::registerView(SofaFS aSofa ) {
     lowlevel::TyFS tySofa = internal::FSPromoter::demoteFS(aSofa);
     iv_sofaNum = iv_heap->getIntValue(tySofa, internal::gs_tySofaNumFeature);
+    // the view's text, which need not have an indexed document annotation
+    copyDocumentString(iv_heap->getStringValue(tySofa, internal::gs_tySofaStringFeature));
   }
 
   void CAS::updateDocumentAnnotation( ) {
-- 
2.43.0


From 75049f0fa5c162b6335170e63f3fb639b8e43955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 38/99] fix: UnicodeStringRef pins negative offsets and lengths

endsWith() with a text longer than the string passed a negative start, and
characters before the string were compared.
---
 src/framework/uima/unistrref.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index dcb6bd6..9ea6892 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -1576,10 +1576,14 @@ namespace uima {
   UnicodeStringRef::pinIndices(int32_t& start,
                                int32_t& length) const {
     // pin indices
-    if (start > iv_uiLength) {
+    if (start < 0) {
+      start = 0;
+    } else if (start > iv_uiLength) {
       start = iv_uiLength;
     }
-    if (length > (iv_uiLength - start)) {
+    if (length < 0) {
+      length = 0;
+    } else if (length > (iv_uiLength - start)) {
       length = (iv_uiLength - start);
     }
   }
-- 
2.43.0


From 3c1a02f917c8f34a0571418cc9ac5f9887dfbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 39/99] fix: UnicodeStringRef equality compares beyond U+0000

---
 src/framework/uima/unistrref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index 9ea6892..d849e30 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -1554,7 +1554,7 @@ namespace uima {
     if (iv_uiLength != crclRHS.iv_uiLength) {
       return false;
     }
-    return u_strncmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
+    return u_memcmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
   }
 
   inline int
-- 
2.43.0


From e5fed8bc4d104f992075c03c77d464f4478195a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 40/99] fix: code point order comparison takes the whole of
 both strings into account

Only the common length was compared, and only up to U+0000: a string and any
of its extensions compared as equal.
---
 src/framework/unistrref.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 32598ae..aba6022 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -126,7 +126,7 @@ namespace uima {
     // pin indices to legal values
     pinIndices(start, length);
 
-    int32_t diff = u_strncmpCodePointOrder(getBuffer() + start, srcChars + srcStart, min(length, srcLength));
+    int32_t diff = u_strCompare(getBuffer() + start, length, srcChars + srcStart, srcLength, true);
     /* translate the 32-bit result into an 8-bit one */
     if (diff!=0) {
       return (int8_t)(diff >> 15 | 1);
-- 
2.43.0


From 63b410d0014ea8dd3c4622d0f8e203b8dcc0f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 41/99] fix: UnicodeStringRef extract and caseCompare pin their
 range to the string

---
 src/framework/uima/unistrref.hpp | 2 ++
 src/framework/unistrref.cpp      | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index d849e30..82dbb96 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -2079,6 +2079,7 @@ namespace uima {
   UnicodeStringRef::extract(int32_t start,
                             int32_t length,
                             icu::UnicodeString& target) const {
+    pinIndices(start, length);
     target.replace(0, target.length(), getBuffer(), start, length);
   }
 // Replaces all of target by substring of src
@@ -2182,6 +2183,7 @@ namespace uima {
                                   int32_t srcStart,
                                   int32_t srcLength,
                                   uint32_t options) const {
+    pinIndices(start, length);
     icu::UnicodeString s(iv_pUChars+start, (int32_t)length);
     return s.caseCompare(srcChars + srcStart, (int32_t)srcLength, options);
   }
diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index aba6022..49b3a7c 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -295,7 +295,8 @@ namespace uima {
                                     int32_t startLength,
                                     std::string & target,
                                     const char *codepage) const {
-    if (length() == 0) {
+    pinIndices(start, startLength);
+    if (startLength == 0) {
       target.clear();
       return 0;
     }
-- 
2.43.0


From 369d8ed7682bf30f88d4ea2968214400acb0f5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 42/99] fix: extractUTF8 replaces unpaired surrogates

u_strToUTF8 fails on an unpaired surrogate without setting the length, which
was then used to size the result.
---
 src/framework/unistrref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 49b3a7c..765c932 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -348,11 +348,11 @@ namespace uima {
     int32_t len;
 
     UErrorCode err = U_ZERO_ERROR;
-    u_strToUTF8(buf, STACK_BUF_SIZE, &len, getBuffer(), length(), &err);
+    u_strToUTF8WithSub(buf, STACK_BUF_SIZE, &len, getBuffer(), length(), 0xFFFD, NULL, &err);
     if ( err == U_BUFFER_OVERFLOW_ERROR || err == U_STRING_NOT_TERMINATED_WARNING ) {
       buf = heapBuf = new char [len+1];
       err = U_ZERO_ERROR;
-      u_strToUTF8(buf, len+1, &len, getBuffer(), length(), &err);
+      u_strToUTF8WithSub(buf, len+1, &len, getBuffer(), length(), 0xFFFD, NULL, &err);
     }
 
     target.assign(buf, len);                   // Copy the result to the string
-- 
2.43.0


From c3e90c2fe3f9219945b5bc4011e582507f932ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 43/99] fix: strtrim does not read before a string of white
 space only

---
 src/framework/uima/strtools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/framework/uima/strtools.hpp b/src/framework/uima/strtools.hpp
index 4b769ab..f3b4eba 100644
--- a/src/framework/uima/strtools.hpp
+++ b/src/framework/uima/strtools.hpp
@@ -1227,14 +1227,14 @@ namespace uima {
       return s;
     }
     size_t beg = 0;
-    size_t end = s.length()-1;
-    while (end >= beg && isspace_templ(s[end]) ) {
+    size_t end = s.length();
+    while (end > beg && isspace_templ(s[end-1]) ) {
       --end;
     }
     while (beg < end && isspace_templ(s[beg]) ) {
       ++beg;
     }
-    return s.substr(beg, end-beg+1);
+    return s.substr(beg, end-beg);
   }
 
   /*---------------------------------------------------------------------------*/
-- 
2.43.0


From 9a3a7684d7e2fec9f600a0fdc09439687f0698cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 44/99] fix: strtriml keeps the last character

---
 src/framework/uima/strtools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/uima/strtools.hpp b/src/framework/uima/strtools.hpp
index f3b4eba..9959452 100644
--- a/src/framework/uima/strtools.hpp
+++ b/src/framework/uima/strtools.hpp
@@ -1287,7 +1287,7 @@ namespace uima {
     const BASIC_STRING_TEMPLATE & s
   ) {
     long beg = 0;
-    long end = s.length()-1;
+    long end = s.length();
     while (beg != end && isspace_templ(s[beg]) ) {
       beg++;
     }
-- 
2.43.0


From 8faa9d18f1a90cb273aa7a09bbd00c1d088a745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 45/99] fix: delimitedString2Vector ends a piece at every
 delimiter

A leading, repeated or trailing delimiter became part of a piece.
---
 src/framework/uima/strtools.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/framework/uima/strtools.hpp b/src/framework/uima/strtools.hpp
index 9959452..983a145 100644
--- a/src/framework/uima/strtools.hpp
+++ b/src/framework/uima/strtools.hpp
@@ -1816,16 +1816,12 @@ namespace uima {
     }
     BASIC_STRING_TEMPLATE _s;
 
-    while (uiBegin != STRING_NPOS) {
-      //      uiBegin--;
-      uiEnd   = crstrInput.find_first_of(cpszDelimiters, uiBegin+1);
-      if (uiEnd != STRING_NPOS) {
-        uiEnd   = crstrInput.find_first_not_of(cpszDelimiters, uiEnd+1);
-      }
+    while (uiBegin < crstrInput.length()) {
+      uiEnd   = crstrInput.find_first_of(cpszDelimiters, uiBegin);
       if (uiEnd == STRING_NPOS) {
-        uiEnd = crstrInput.length()+1;
+        uiEnd = crstrInput.length();
       }
-      _s = crstrInput.substr(uiBegin, uiEnd-uiBegin-1);
+      _s = crstrInput.substr(uiBegin, uiEnd-uiBegin);
       if (bTrimString) {
         _s = strtrim(_s);
       }
@@ -1833,7 +1829,7 @@ namespace uima {
         rvecstrOutput.push_back(_s);
         uiNumFound++;
       }
-      uiBegin = crstrInput.find_first_not_of(cpszDelimiters, uiEnd);
+      uiBegin = uiEnd+1;
     }
     return uiNumFound;
   }
-- 
2.43.0


From 20358f685fca6de58f9eef3714057bae1b638efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 46/99] fix: outputs declared for every language count for
 specific ones without inputs

---
 src/framework/internal_capability_container.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/framework/internal_capability_container.cpp b/src/framework/internal_capability_container.cpp
index 238cdb5..a6eb0ff 100644
--- a/src/framework/internal_capability_container.cpp
+++ b/src/framework/internal_capability_container.cpp
@@ -271,12 +271,16 @@ namespace uima {
           }
         }
 
-        // Now do the same copying for the output
+      }
+
+      // Now do the same copying for the output
 
-        // if it is in the input it must be in the output too
-        assert(findOutputTOFs(Language(Language::UNSPECIFIED)) != NULL);
-        assert(EXISTS(iv_psetOutputTOFsForUnspecifiedLang));
+      // if it is in the input it must be in the output too
+      assert(findOutputTOFs(Language(Language::UNSPECIFIED)) != NULL);
+      assert(EXISTS(iv_psetOutputTOFsForUnspecifiedLang));
 
+      if (iv_psetOutputTOFsForUnspecifiedLang->size() != 0) {
+        TyMapLang2TypeOrFeatures::iterator it;
         for (it = iv_mapLang2OutputTypesOrFeatures.begin(); it != iv_mapLang2OutputTypesOrFeatures.end(); ++it) {
           if (&(*it).second != iv_psetOutputTOFsForUnspecifiedLang) { // don't append onto ourselves
             if ((*it).second.size() > 0) { // don't append to empty
-- 
2.43.0


From 8c94fe948244acc31628bf4345cde5478bdaf8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 47/99] fix: CASPool::releaseCAS only takes back CASes that are
 checked out

---
 src/framework/caspool.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/framework/caspool.cpp b/src/framework/caspool.cpp
index 78e966e..8beceff 100644
--- a/src/framework/caspool.cpp
+++ b/src/framework/caspool.cpp
@@ -30,6 +30,8 @@
 // ---------------------------------------------------------------------------
 
 
+#include <algorithm>
+
 #include "uima/caspool.hpp"
 #include "uima/err_ids.h"
 #include "uima/msg.h"
@@ -113,8 +115,15 @@ namespace uima {
 
   void CASPool::releaseCAS(CAS & aCas) {
 
-    aCas.reset();
-    iv_vecFreeInstances.push_back(&aCas);
+    //the pool manages initial views, whichever view is returned
+    CAS * pCas = aCas.getInitialView();
+    //ignore a CAS that does not belong to this pool or is already free
+    if (find(iv_vecAllInstances.begin(), iv_vecAllInstances.end(), pCas) == iv_vecAllInstances.end()
+        || find(iv_vecFreeInstances.begin(), iv_vecFreeInstances.end(), pCas) != iv_vecFreeInstances.end()) {
+      return;
+    }
+    pCas->reset();
+    iv_vecFreeInstances.push_back(pCas);
     return;
   }
 
-- 
2.43.0


From cbe763e7b5b6b1e586107d37014a19ab81e162cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 48/99] fix: sofa mappings are resolved through the enclosing
 aggregates' mappings

---
 src/framework/annotator_context.cpp | 46 ++++++++++-------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 8e3dcc6..6d4367a 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -78,38 +78,24 @@ namespace uima {
         // where component sofa name is the key and
         // aggregate sofaname is the value
         // if component sofa name is not set,
-        // set it to the default for tcas sofas.
-        if (sofamap->getComponentSofaName().length() == 0) {
-          icu::UnicodeString ustr(CAS::NAME_DEFAULT_TEXT_SOFA);
-          sofamap->setComponentSofaName(ustr);
-        }
-        SofaID * pSofaid = new SofaID();
-        pSofaid->setSofaId(sofamap->getAggregateSofaName());
-        pSofaid->setComponentSofaName(sofamap->getComponentSofaName());
+        // it defaults to the default text sofa.
         icu::UnicodeString astr = sofamap->getComponentSofaName();
-        iv_mapSofaMappings[astr] = pSofaid;
-
-        //if this delegate is an aggregate and has sofamapping
-        //check if somponent sofaname is specified as the
-        //aggregate sofa name in this delegate specifier
-        //if so update that aggregate sofa name
-        if (!delegateSpec->isPrimitive()) {
-          AnalysisEngineDescription::TyVecpSofaMappings delegateSofaMappings = delegateSpec->getSofaMappings();
-          if (delegateSofaMappings.size() > 0 ) {
-            AnalysisEngineDescription::TyVecpSofaMappings::const_iterator iter;
-
-            for (iter = delegateSofaMappings.begin(); iter != delegateSofaMappings.end(); ++iter) {
-              SofaMapping  * delsofamap = * iter;
-              if (delsofamap->getAggregateSofaName().compare(astr)==0) {
-                delsofamap->setAggregateSofaName(pSofaid->getSofaId());
-              }
-            }
-
-
-          }
+        if (astr.length() == 0) {
+          astr = CAS::NAME_DEFAULT_TEXT_SOFA;
         }
-
-
+        // the aggregate's sofa name is in turn subject to
+        // the mappings of the enclosing aggregates
+        icu::UnicodeString sofaId = sofamap->getAggregateSofaName();
+        if (parent != NULL) {
+          sofaId = parent->mapToSofaID(sofaId).getSofaId();
+        }
+        SofaID * pSofaid = iv_mapSofaMappings[astr];
+        if (pSofaid == NULL) {
+          pSofaid = new SofaID();
+          iv_mapSofaMappings[astr] = pSofaid;
+        }
+        pSofaid->setSofaId(sofaId);
+        pSofaid->setComponentSofaName(astr);
       }
 
     }
-- 
2.43.0


From 7b69e92d6054293350a7cd619482da2773560c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:55 +0000
Subject: [PATCH 49/99] fix: AggregateEngine::batchProcessComplete called
 collectionProcessComplete on the delegates

---
 src/framework/internal_aggregate_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_aggregate_engine.cpp b/src/framework/internal_aggregate_engine.cpp
index c0ca218..1e6f98b 100644
--- a/src/framework/internal_aggregate_engine.cpp
+++ b/src/framework/internal_aggregate_engine.cpp
@@ -211,7 +211,7 @@ namespace uima {
 
     TyErrorId AggregateEngine::batchProcessCompleteImpl(void) {
       util::Trace             clTrace(util::enTraceDetailMedium, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-      return iv_annotatorMgr.launchCollectionProcessComplete();
+      return iv_annotatorMgr.launchBatchProcessComplete();
     }
 
     TyErrorId AggregateEngine::collectionProcessCompleteImpl(void) {
-- 
2.43.0


From d88750cf5aee4ef27b5b7b398752930b69ac4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:55 +0000
Subject: [PATCH 50/99] fix: PrimitiveEngine::process dropped the error code
 returned by the annotator

---
 src/framework/internal_primitive_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index aaad5d9..1645c79 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -203,7 +203,7 @@ namespace uima {
         // link CAS to current component
         cas.setCurrentComponentInfo(&getAnnotatorContext());
         try {
-          iv_pAnnotator->processDocument(cas, crResultSpec);
+          return iv_pAnnotator->processDocument(cas, crResultSpec);
         } catch (Exception e) {
           UIMA_EXC_RETHROW(e,0);
         }
-- 
2.43.0


From 33a9a467d6d3c75ab6991c74d857680ab8d0d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:18 +0000
Subject: [PATCH 51/99] fix: isParameterDefined without a group name ignored
 the default group

---
 src/framework/taespecifier.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index e7d4c62..45bb294 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -502,6 +502,10 @@ namespace uima {
   **/
   bool AnalysisEngineMetaData::isParameterDefined(const icu::UnicodeString & paramName,
       const icu::UnicodeString & ancKey) const {
+    if (hasGroups() && hasDefaultGroup()) {
+      // parameters requested without a group are looked up in the default group
+      return isParameterDefined(getDefaultGroupName(), paramName, ancKey);
+    }
     return isParameterDefined(CONFIG_GROUP_NAME_WHEN_NO_GROUPS, paramName, ancKey);
   }
   /**
-- 
2.43.0


From 711cf84f2e1a195bae27eeddeb4a3e210fb20a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:18 +0000
Subject: [PATCH 52/99] fix: assigning a delegate's parameter set the
 aggregate's parameter of that name although it is not visible to the delegate

---
 src/framework/annotator_context.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 6d4367a..6f026c1 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -513,7 +513,9 @@ namespace uima {
   TyErrorId AnnotatorContext::setNameValuePair(const NameValuePair & nvPair) {
 
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
-    if (EXISTS(iv_pParentAnC)) {
+    // the parent's value only overrides ours if its parameter is visible to us
+    if (EXISTS(iv_pParentAnC)
+        && iv_pParentAnC->getTaeSpecifier().getAnalysisEngineMetaData()->isParameterDefined(nvPair.getName(), iv_AnCKey)) {
       errId = iv_pParentAnC->setNameValuePair(nvPair);
     }
 
@@ -527,7 +529,9 @@ namespace uima {
       const NameValuePair & nvPair) {
 
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
-    if (EXISTS(iv_pParentAnC)) {
+    // the parent's value only overrides ours if its parameter is visible to us
+    if (EXISTS(iv_pParentAnC)
+        && iv_pParentAnC->getTaeSpecifier().getAnalysisEngineMetaData()->isParameterDefined(groupName, nvPair.getName(), iv_AnCKey)) {
       errId = iv_pParentAnC->setNameValuePair(groupName, nvPair);
     }
 
-- 
2.43.0


From b15ca6d37064b0f6557f9b0ac0dcdf3ef7a28b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 53/99] fix: string subtypes with different allowed values were
 considered equal when merging type systems

---
 src/framework/casdefinition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index ad6ea2c..fc06b64 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -144,7 +144,7 @@ namespace uima {
                 // check that string occurs in the allowed values
                 bool bContainsString = false;
                 for (j=0; j<uiStringNum; ++j) {
-                  if (crString != allowedStringValues[j]) {
+                  if (crString == allowedStringValues[j]) {
                     bContainsString = true;
                     break;
                   }
-- 
2.43.0


From e18c60d1fb5b61b060d0ed59f83565206d324cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 54/99] fix: an empty type priority list was read out of bounds

---
 src/framework/casdefinition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index fc06b64..f9e41af 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -450,7 +450,7 @@ namespace uima {
         vector<icu::UnicodeString> const & crTypeChain = cpTypePriority->getTypeOrder();
         size_t i;
         // walk along the chain
-        for (i=0; i<crTypeChain.size()-1; ++i) {
+        for (i=0; i+1<crTypeChain.size(); ++i) {
           uima::lowlevel::TyFSType t1 = rTypeSystem.getTypeByName(crTypeChain[i]);
           if (t1 == uima::lowlevel::TypeSystem::INVALID_TYPE) {
             UIMA_EXC_THROW_NEW(UnknownTypeException,
-- 
2.43.0


From 4f82e76afcc533424118a4e73c702a91d8fd23ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 55/99] fix: committing a type system description dropped the
 types it imports

---
 src/framework/uima/typesystemdescription.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/framework/uima/typesystemdescription.hpp b/src/framework/uima/typesystemdescription.hpp
index f97b343..87fa909 100644
--- a/src/framework/uima/typesystemdescription.hpp
+++ b/src/framework/uima/typesystemdescription.hpp
@@ -364,10 +364,10 @@ namespace uima {
     }
 
     void commit() {
-      iv_bIsModifiable = false;
-
       std::vector<icu::UnicodeString> alreadyImportedLocations;
+      // imported types are added, so this has to be done while still modifiable
       resolveImports(alreadyImportedLocations);
+      iv_bIsModifiable = false;
       size_t i;
       for (i=0; i < iv_vecpTypeDescriptions.size(); i++) {
         iv_vecpTypeDescriptions[i]->commit();
-- 
2.43.0


From cda917c0a04eb9080eae989bf0846e0fd999a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 56/99] fix: cyclic supertypes in a type system description
 made merging recurse without end

---
 src/framework/casdefinition.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index f9e41af..99e2a0a 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -115,6 +115,21 @@ namespace uima {
         TypeDescription const * cpTypeDesc = crTSDesc.getTypeDescription(crTypeToBeCreated);
         icu::UnicodeString const & crSuperTypeName = cpTypeDesc->getSuperTypeName();
 
+        // a type must not be its own ancestor
+        size_t uiDepth = 0;
+        TypeDescription const * cpAncestor = cpTypeDesc;
+        while (cpAncestor != NULL && uiDepth <= crTSDesc.getTypeDescriptions().size()) {
+          cpAncestor = crTSDesc.getTypeDescriptionConst(cpAncestor->getSuperTypeName());
+          ++uiDepth;
+        }
+        if (cpAncestor != NULL) {
+          UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                             UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                             ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
+                             ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                             ErrorInfo::recoverable);
+        }
+
         // first merge the parent
         uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID);
 
-- 
2.43.0


From 1ae1fcc8b1e705f8aef3dbbbbae409816396f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 57/99] fix: describing an existing type as a string subtype
 was not refused but looked up its values

---
 src/framework/casdefinition.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 99e2a0a..5ad7005 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -148,6 +148,14 @@ namespace uima {
             return rTypeSystem.createStringSubtype(crTypeToBeCreated, allowedStringValues, crCreatorID);
           } else {
             // check string subtype
+            if (parent != rTypeSystem.getParentType(typeToBeCreated)) {
+              UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                                 UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                                 ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
+                                 ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                                 ErrorInfo::recoverable);
+              return 0;
+            }
             vector<icu::UnicodeString> const & crStringValues = rTypeSystem.getStringsForStringSubtype(typeToBeCreated);
             bool bAreStringSetsEqual = false;
             if (crStringValues.size() == crAllowedValues.size()) {
-- 
2.43.0


From 2d273cc99c3ff6955e0f568f53156f25e29b19b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 58/99] fix: descriptors parsed from a UTF-16 buffer were read
 from freed memory

---
 src/framework/engine.cpp              | 10 ++++++----
 src/framework/taespecifierbuilder.cpp |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 63b7672..2712742 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -488,8 +488,9 @@ namespace uima {
     XMLParser builder;
     AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *)usRef.asUTF8().c_str(),
-		                    usRef.asUTF8().length(),
+    std::string utf8 = usRef.asUTF8();  // must outlive the input source
+    MemBufInputSource memIS((XMLByte const *)utf8.c_str(),
+		                    utf8.length(),
 							"sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     pAe->setTypeSystemDescription(tsDesc);
@@ -576,8 +577,9 @@ namespace uima {
     UnicodeStringRef usRef(cpBuffer, uiLength);
     XMLParser builder;
     TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *) usRef.asUTF8().c_str(), 
-		                     usRef.asUTF8().length(), "sysID");
+    std::string utf8 = usRef.asUTF8();  // must outlive the input source
+    MemBufInputSource memIS((XMLByte const *) utf8.c_str(), 
+		                     utf8.length(), "sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     return tsDesc;
   }
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index f450ae4..4fcdcee 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2032,7 +2032,8 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
   void TextAnalysisEngineSpecifierBuilder::buildTaeFromMemory(AnalysisEngineDescription & taeSpec,
       icu::UnicodeString const & xmlString) {
 	UnicodeStringRef uref(xmlString);
-    MemBufInputSource memIS((XMLByte const *) uref.asUTF8().c_str(), uref.asUTF8().length(), "sysID");
+    std::string utf8 = uref.asUTF8();  // must outlive the input source
+    MemBufInputSource memIS((XMLByte const *) utf8.c_str(), utf8.length(), "sysID");
     parseAnalysisEngineDescription(taeSpec, memIS);
   }
 
-- 
2.43.0


From 551e3a464c088c7ed9690ef61a583adf72636a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 59/99] fix: type systems created from a file ignored imports,
 and descriptions could not be read from a file

---
 src/framework/engine.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 2712742..b581de4 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -466,7 +466,10 @@ namespace uima {
     
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get());
 
+    tsDesc->setXmlFileLocation(ufn);
     builder.parseTypeSystemDescription(*tsDesc, fileIS);
+    // resolve imports
+    tsDesc->commit();
     pAe->setTypeSystemDescription(tsDesc);
 
     unique_ptr<AnalysisEngineMetaData> apSpecifier(pAe  );
@@ -587,8 +590,10 @@ namespace uima {
   //read in xml from a file and create a TypeSystemDescription object
   TypeSystemDescription * Framework::createTypeSystemDescription(char const * crFileName) {
     XMLParser builder;
-	LocalFileInputSource fileIS((XMLCh const *)crFileName);
-	TypeSystemDescription * tsDesc = new TypeSystemDescription();
+    icu::UnicodeString ufn(crFileName);
+    LocalFileInputSource fileIS((XMLCh const *)ufn.getTerminatedBuffer());
+    TypeSystemDescription * tsDesc = new TypeSystemDescription();
+    tsDesc->setXmlFileLocation(ufn);
     builder.parseTypeSystemDescription(*tsDesc,fileIS);
 	return tsDesc;
   }
-- 
2.43.0


From deffb7e1db30a6073a353d6ff5e2cb908f541dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 60/99] fix: whether a feature redefined by a subtype is
 checked depended on the order of the type descriptions

---
 src/framework/casdefinition.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 5ad7005..76af4e2 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -60,6 +60,8 @@
 #include "uima/taespecifierbuilder.hpp"
 #include "uima/xmlerror_handler.hpp"
 
+#include <map>
+
 using namespace std;
 /* ----------------------------------------------------------------------- */
 /*       Constants                                                         */
@@ -408,10 +410,16 @@ namespace uima {
         mergeType( rTypeSystem, crTypeName, crTSDesc, crCreatorID );
       }
 
-      // create features
+      // create features, those of a type after those of its supertypes: types are numbered in
+      // order of creation
+      multimap<uima::lowlevel::TyFSType, TypeDescription const *> orderedDescs;
       for (cit = crTypeDescVector.begin(); cit != crTypeDescVector.end(); ++cit) {
-        TypeDescription const * pTypeDesc = *cit;
-        uima::lowlevel::TyFSType introType = rTypeSystem.getTypeByName( pTypeDesc->getName() );
+        orderedDescs.insert( make_pair(rTypeSystem.getTypeByName((*cit)->getName()), (TypeDescription const *) *cit) );
+      }
+      multimap<uima::lowlevel::TyFSType, TypeDescription const *>::const_iterator citOrdered;
+      for (citOrdered = orderedDescs.begin(); citOrdered != orderedDescs.end(); ++citOrdered) {
+        TypeDescription const * pTypeDesc = citOrdered->second;
+        uima::lowlevel::TyFSType introType = citOrdered->first;
         // type must have been merged before
         assert( rTypeSystem.isValidType(introType) );
 
-- 
2.43.0


From c3ecdf9cf4d48b16f9384aeb1c3bfd926ef69ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 61/99] fix: XMI namespace prefixes made unique by a number
 contained a line feed

---
 src/cas/xmiwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index c462c8e..f7eadd4 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -256,7 +256,7 @@ namespace uima {
      while (prefixIte != nsPrefixesUsed.end()) {
        num++;
        stringstream basePrefix;
-       basePrefix << prefix << num << endl;
+       basePrefix << prefix << num;
        prefixIte = nsPrefixesUsed.find(basePrefix.str());
        if (prefixIte == nsPrefixesUsed.end() ) {
          prefix = basePrefix.str();
-- 
2.43.0


From 803b1ca9fc75a1eb697b45c2eead8463256121aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 62/99] fix: tabs in strings were written unescaped to XML
 attributes and read back as spaces

---
 src/cas/xmlwriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index cbd305b..af0f332 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -81,6 +81,7 @@ namespace uima {
     static icu::UnicodeString const ustrQUOT_ESC("&quot;");
     static icu::UnicodeString const ustrCR_ESC("&#13;");
     static icu::UnicodeString const ustrLF_ESC("&#10;");
+    static icu::UnicodeString const ustrTAB_ESC("&#9;");
 
     static UChar const uAMP('&');
     static UChar const uGT('>');
@@ -89,6 +90,7 @@ namespace uima {
     static UChar const uQUOT('"');
     static UChar const uCR('\r');
     static UChar const uLF('\n');
+    static UChar const uTAB('\t');
     
     const UChar * srcPtr = in.getBuffer();
 
@@ -115,6 +117,9 @@ namespace uima {
         case uLF: 
           out.append(ustrLF_ESC);
           break;
+        case uTAB: 
+          out.append(ustrTAB_ESC);
+          break;
         default:
           out.append(*srcPtr);
       }
-- 
2.43.0


From c5d3d033a6b4738bddcccc90bbeb8a0faa43a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 63/99] fix: XMI and XCAS text was converted with the default
 code page although the documents are UTF-8

---
 src/cas/xmideserializer_handler.cpp |  6 +++---
 src/cas/xmiwriter.cpp               | 22 +++++++++++-----------
 src/cas/xmlwriter.cpp               |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 34fae1d..35b3e51 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -696,7 +696,7 @@ namespace uima {
     case internal::gs_tyStringArrayType: {
         //add the striug
 				StringArrayFS strFS(fs);
-				icu::UnicodeString strval(buffer.c_str());
+				icu::UnicodeString strval(buffer.c_str(), "UTF-8");
 				strFS.set( (size_t) arrayPos,strval);
 				break;
     }
@@ -1046,7 +1046,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 		   } else {
 			   Type type = internal::FSPromoter::promoteType(rangeTypeCode,
 				   iv_cas->getTypeSystem().getLowlevelTypeSystem());
-				 icu::UnicodeString val(featVals.at(0).c_str());
+				 icu::UnicodeString val(featVals.at(0).c_str(), "UTF-8");
 			   handleFeature(type,		   
 				   addr, featCode,val, true);
 		   }
@@ -1156,7 +1156,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
   int XmiDeserializerHandler::createStringList(vector<string>& stringList)	{   
     StringListFS listFS =   iv_cas->createStringListFS();
     for (size_t i = 0; i < stringList.size(); i++ ) {
-      icu::UnicodeString value(stringList.at(i).c_str()); //use xmiId to look up addr
+      icu::UnicodeString value(stringList.at(i).c_str(), "UTF-8"); //use xmiId to look up addr
 	    listFS.addLast(value);
     }
 	  return internal::FSPromoter::demoteFS(listFS);
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index f7eadd4..1dde82f 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -356,7 +356,7 @@ namespace uima {
         icu::UnicodeString us;
         normalize( ref, us );
         os << " " << f.getName() << "=\"";
-        os << us << "\"";
+        os << UnicodeStringRef(us).asUTF8() << "\"";
       }
       }
     } else if (t == iv_integerType) {
@@ -552,7 +552,7 @@ namespace uima {
         for (size_t i=0; i < n;i++) {
           ustr.setTo("");
           normalize( arrayfs.get(i), ustr );
-          str << "<" << tag << ">" << ustr << "</" << tag << ">";
+          str << "<" << tag << ">" << UnicodeStringRef(ustr).asUTF8() << "</" << tag << ">";
          
         }         
         break;
@@ -744,9 +744,9 @@ namespace uima {
       for (size_t a=0; a < oed->attributes.size(); a++) {
         XmlAttribute * attr = oed->attributes.at(a);
         icu::UnicodeString us;
-        icu::UnicodeString av(attr->value.c_str());
+        icu::UnicodeString av(attr->value.c_str(), "UTF-8");
         normalize( av, us );
-        os << " " << attr->name << "=\"" << us << "\"";
+        os << " " << attr->name << "=\"" << UnicodeStringRef(us).asUTF8() << "\"";
       }
       //child elements
       map<string,vector<string>*>::iterator ite ;
@@ -755,10 +755,10 @@ namespace uima {
           vector<string> * values = ite->second;
           for (size_t v=0; v < values->size();v++) {
             icu::UnicodeString us;
-            icu::UnicodeString av(values->at(v).c_str());
+            icu::UnicodeString av(values->at(v).c_str(), "UTF-8");
             normalize( av, us );
             strcontent << " <" << ite->first 
-              << ">" << us
+              << ">" << UnicodeStringRef(us).asUTF8()
               << "</" << ite->first << ">";
           }
         }
@@ -1158,7 +1158,7 @@ void XmiWriter::write(ostream & os) {
         ///string head = curNode.getHead().asUTF8();
         ustr.setTo("");
         normalize(curNode.getHead(), ustr);
-        str << "<" << tag << ">" << ustr << "</" << tag << ">";
+        str << "<" << tag << ">" << UnicodeStringRef(ustr).asUTF8() << "</" << tag << ">";
         curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
@@ -1206,9 +1206,9 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
     for (size_t a=0; a < oed->attributes.size();a++) {
       XmlAttribute * attr = oed->attributes.at(a);
       icu::UnicodeString us;
-      icu::UnicodeString av(attr->value.c_str());
+      icu::UnicodeString av(attr->value.c_str(), "UTF-8");
       normalize( av, us );
-      os << " " << attr->name << "=\"" << us << "\"";
+      os << " " << attr->name << "=\"" << UnicodeStringRef(us).asUTF8() << "\"";
     }
     if (oed->childElements.size() > 0) {
       os << ">";
@@ -1218,10 +1218,10 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
         vector<string> * values = ite->second;
         for (size_t v=0; v < values->size(); v++) {
 	        icu::UnicodeString us;
-			icu::UnicodeString av(values->at(v).c_str());
+			icu::UnicodeString av(values->at(v).c_str(), "UTF-8");
 			normalize( av, us );
           os << " <" << ite->first << ">";
-          os << us;
+          os << UnicodeStringRef(us).asUTF8();
           os << "</" << ite->first << ">";
         }
       }
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index af0f332..650fd51 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -435,7 +435,7 @@ namespace uima {
         icu::UnicodeString us;
         normalize( ref, us );
         os << " " << f.getName() << "=\"";
-        os << us << "\"";
+        os << UnicodeStringRef(us).asUTF8() << "\"";
       }
     } else if (t == iv_integerType) {
       os << " " << f.getName() << "=\"";
@@ -499,7 +499,7 @@ namespace uima {
         os << "  <" << tag << ">";
         ustr.setTo("");
 				normalize(array.get(i),ustr);
-        os << ustr;
+        os << UnicodeStringRef(ustr).asUTF8();
         os << "</" << tag << ">" << endl;
       }
       os << " </" << array.getType().getName() << ">" << endl;
-- 
2.43.0


From 1d0bff119e2ed8a10a4449d078820b0d068e09ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 64/99] fix: XMI output rounded floats and doubles to six
 digits

---
 src/cas/xmiwriter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 1dde82f..ce84a25 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -364,7 +364,10 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      stringstream s;
+      s.precision(9);
+      s << fs.getFloatValue(f);
+      os << s.str() << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -384,6 +387,7 @@ namespace uima {
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
       stringstream s;
+      s.precision(17);
       s << fs.getDoubleValue(f);
       os << s.str() << "\"";
     } else {
@@ -444,6 +448,7 @@ namespace uima {
       case internal::gs_tyFloatArrayType: {
         FloatArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
+        str.precision(9);
         for (size_t i=0; i < n;i++) {
           str << arrayfs.get(i);
           if (i+1 < n) {         
@@ -505,6 +510,7 @@ namespace uima {
       case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
+        str.precision(17);
         for (size_t i=0; i < n;i++) {
           str << arrayfs.get(i);
           if (i+1 < n) {         
@@ -1087,6 +1093,7 @@ void XmiWriter::write(ostream & os) {
                                        }
     case internal::gs_tyNEFloatListType: {
       FloatListFS curNode(fs);
+      str.precision(9);
       while (!curNode.isEmpty()) { 
         str << curNode.getHead();
         curNode = curNode.getTail();
-- 
2.43.0


From ff5aa6716d0834f5230f6d107ff057b1a57793ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 65/99] fix: infinite, NaN and denormalized doubles were not
 read from XMI

---
 src/cas/xmideserializer_handler.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 35b3e51..e35352d 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -741,11 +741,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << buffer;
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, strtod(buffer.c_str(), NULL));
         break;
       }
     default: {    //array of FSs
@@ -888,11 +884,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
         if (featVal.length() > 0) {
           string strval = UnicodeStringRef(featVal).asUTF8();
-          long double doubleval;
-          stringstream s;
-          s << strval.c_str();
-          s >> doubleval;
-          fs.setDoubleValue(feat, doubleval );
+          fs.setDoubleValue(feat, strtod(strval.c_str(), NULL) );
         }
         break;
       }	  
-- 
2.43.0


From 3549e99eeea28ac1f61d453d0a3f3049d8e8a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:00 +0000
Subject: [PATCH 66/99] fix: an XMI array without elements attribute was read
 with the elements of the array before it

---
 src/cas/xmideserializer_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index e35352d..63183e5 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -466,8 +466,8 @@ namespace uima {
 			} else if (iv_cas->getTypeSystem().isArrayType(internal::FSPromoter::demoteType(type)) ) {
 				
         icu::UnicodeString attrName; 
-				int xmiId=0;
-				icu::UnicodeString elements;
+				currentArrayId = 0;
+				currentArrayElements.remove();
 				for (size_t i = 0; i < attrs.getLength(); i++) {
 						attrName =  attrs.getQName(i);
 						if (attrName.compare(XMI_ID_ATTR_NAME) == 0) {
-- 
2.43.0


From eefe9622e0f291997de6180563e6ddfc8f16abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:00 +0000
Subject: [PATCH 67/99] fix: null elements of an FSArray were left out of XMI
 output

---
 src/cas/xmiwriter.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index ce84a25..c121d52 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -534,17 +534,15 @@ namespace uima {
             // However, this null array element might have been a reference to an 
             //out-of-typesystem FS, so check the ootsArrayElementsList
             if (ootsList != NULL) {
-              while (ootsIndex < ootsList->size()) {
-                XmiArrayElement * arel = ootsList->at(ootsIndex++);
-                if (arel->index == j) {
-                  str << arel->xmiId;
-                  break;
-                }                
+              while (ootsIndex < ootsList->size() && ootsList->at(ootsIndex)->index < (int)j) {
+                ++ootsIndex;
+              }
+              if (ootsIndex < ootsList->size() && ootsList->at(ootsIndex)->index == (int)j) {
+                xmiId = ootsList->at(ootsIndex)->xmiId;
               }
             }
-          } else {
-            str << xmiId;
           }
+          str << xmiId;   // 0 stands for null
           if (j+1 < size) {         
             str << " ";
           }
-- 
2.43.0


From 84cfc99767d912b7a64e5f013907597b8f7a9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:14 +0000
Subject: [PATCH 68/99] fix: null elements of an FSList were left out of XMI
 output when there is shared data

---
 src/cas/xmiwriter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index c121d52..a5d726c 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -1125,15 +1125,16 @@ void XmiWriter::write(ostream & os) {
           //null value in list.  Represent with "0".
           // this may be null because the element was originally a reference to an 
           // out-of-typesystem FS, so chck the XmiSerializationSharedData
+          OotsElementData * oed = NULL;
           if (sharedData != NULL) {
             int addr = internal::FSPromoter::demoteFS(curNode);
-            OotsElementData * oed = sharedData->getOutOfTypeSystemFeatures(addr);
-            if (oed != NULL) {
+            oed = sharedData->getOutOfTypeSystemFeatures(addr);
+          }
+          if (oed != NULL) {
               assert(oed->attributes.size() == 1); //only the head feature can possibly be here
               XmlAttribute *  attr = oed->attributes.at(0);
               assert(attr->name.compare(CAS::FEATURE_BASE_NAME_HEAD)==0);
               str << attr->value;
-            }
           } else {
             str << head;
           }
-- 
2.43.0


From a75e6fe8d2fc74842a56966611cd9d1ac184fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:14 +0000
Subject: [PATCH 69/99] fix: writing XMI failed when a feature holds an empty
 integer, float or string list

---
 src/cas/xmiwriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index a5d726c..e9ebefd 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -1108,6 +1108,9 @@ void XmiWriter::write(ostream & os) {
       }
       break;
                                          }
+    case internal::gs_tyEIntListType:
+    case internal::gs_tyEFloatListType:
+    case internal::gs_tyEStringListType:
     case internal::gs_tyEListType: {
       //cout << "listToString() Empty FSList SKIP"  << endl;
       break;
-- 
2.43.0


From bd81d893fc2fef340fe89df82f58b176dfd66f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 70/99] fix: the tails of list nodes written as elements were
 not restored from XMI

---
 src/cas/xmideserializer_handler.cpp | 7 +++++--
 src/cas/xmiwriter.cpp               | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 63183e5..00f10e5 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -927,7 +927,9 @@ namespace uima {
       case internal::gs_tyStringListType: 
       case internal::gs_tyFSListType: {
         //cout << "GOT A LIST FEATURE " << endl;
-        if (feat.isMultipleReferencesAllowed()) {
+        // the tail of a list node is always a reference
+        if (feat.isMultipleReferencesAllowed()
+            || iv_cas->getTypeSystem().isListType(internal::FSPromoter::demoteType(type))) {
           // do the usual FS deserialization
           if (featVal.length() > 0) {
             int val = atoi(UnicodeStringRef(featVal).asUTF8().c_str());
@@ -1211,7 +1213,8 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
           (iv_cas->getTypeSystem().isArrayType(rangetypecode) && 
           feat.isMultipleReferencesAllowed() ) || 
           (iv_cas->getTypeSystem().isListType(rangetypecode) && 
-          feat.isMultipleReferencesAllowed()) ) {
+          (feat.isMultipleReferencesAllowed() || 
+          iv_cas->getTypeSystem().isListType(uima::internal::FSPromoter::demoteType(type)))) ) {
             //get the current feature value which is the id
             lowlevel::TyFS featVal = iv_casimpl.getHeap().getFeatureInternal(addr, featcode);
             if (featVal != 0) {
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index e9ebefd..4445696 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -719,7 +719,7 @@ namespace uima {
         case internal::gs_tyNEStringListType: {
           FeatureStructure listFS = fs.getFSValue(f);
           if (listFS.isValid()) {
-            if (f.isMultipleReferencesAllowed() ) {
+            if (f.isMultipleReferencesAllowed() || insidelist) {
               writeFeatureValue(os, fs, f);
             } else {
               if (fs.getFSValue(f).isValid()) {
-- 
2.43.0


From b7711b5d1587ad904a9877f968dc7077d6ed81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 71/99] fix: empty arrays and empty embedded string lists were
 left out of XMI output

---
 src/cas/xmiwriter.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 4445696..4e12812 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -589,13 +589,11 @@ namespace uima {
   }
 
   void XmiWriter::writeStringArray(ostream & os, StringArrayFS const & array, char const * tag, int xmiid) {
-    if (array.size() > 0) {
       //XCAS os << " size=\"" << array.size() << "\">" << endl;
       os << " <" << tag;
       os << " " << ID_ATTR_NAME << "=\"" << xmiid << "\">";
         os << arrayToString(array, "elements").c_str();
         os << "</" << tag << ">" << endl;
-    } 
   }
 
   void XmiWriter::writeFSFlat(ostream & os,
@@ -612,9 +610,6 @@ namespace uima {
    
     // if array
     if ( iv_arrayType.subsumes(t) ) {
-      const CAS* ccasp = &iv_cas;
-      CAS* casp = const_cast<CAS*> (ccasp);
-        if (casp->getHeap()->getArraySize(internal::FSPromoter::demoteFS(fs)) >0) {
             if ( t == iv_intArrayType ) {
                 writeArray( os, IntArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
             } else if ( t == iv_floatArrayType ) {
@@ -640,7 +635,6 @@ namespace uima {
                     cerr << "writeFSFlat unknown array type " << t.getName() << endl;
                 }
             }
-        }
     } else {
       vector<Feature> features;
       fs.getType().getAppropriateFeatures(features);
@@ -674,6 +668,8 @@ namespace uima {
             StringArrayFS arrayFS = fs.getStringArrayFSValue(f);
             if (arrayFS.isValid() && arrayFS.size() > 0) {
               strcontent << arrayToString(arrayFS, f.getName().asUTF8().c_str());
+            } else if (arrayFS.isValid()) {
+              os << " " << f.getName() << "=\"\"";
             }
           }
           break;                             
@@ -726,6 +722,8 @@ namespace uima {
                 string str = listToString(fs.getFSValue(f), f.getName().asUTF8().c_str());          
                 if (listFS.isValid() && str.length() > 0) {
                   strcontent << str;
+                } else {
+                  os << " " << f.getName() << "=\"\"";
                 }
               }
             }
-- 
2.43.0


From 6dd955f5a1fa399e5ed02fcf2c5ed05e4b645454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 72/99] fix: XMI elements were ignored if their prefix or type
 name contains xmi

---
 src/cas/xmideserializer_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 00f10e5..dd5c319 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -152,7 +152,7 @@ namespace uima {
 										}
 		case FS_STATE: {
 			// ignore elements with XMI prefix (such as XMI annotations)  
-			if (qualifiedName.indexOf("xmi") > 0) {
+			if (qualifiedName.startsWith("xmi:")) {
 				this->iv_state = IGNORING_XMI_ELEMENTS_STATE;
 				this->ignoreDepth++;
 				return;
-- 
2.43.0


From 4c4e1bea548fb771bd39b585c87af8e1d5111d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 73/99] fix: the namespace prefix xmi was given to type
 namespaces in XMI output

---
 src/cas/xmiwriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 4e12812..e285b53 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -164,6 +164,7 @@ namespace uima {
   */
  void XmiWriter::initTypeAndNamespaceMappings() {
    nsUriToPrefixMap[XMI_NS_URI] = XMI_NS_PREFIX;
+   nsPrefixesUsed.insert(XMI_NS_PREFIX);
 
    //Add any namespace prefix mappings used by out of type system data.
    //Need to do this before the in-typesystem namespaces so that the prefix
-- 
2.43.0


From daa03c5067232c1f2d6bfbece40664d6c6485044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 74/99] fix: XMI deserialization lost the text of views without
 an indexed document annotation

---
 src/cas/xmideserializer_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index dd5c319..696dbc4 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -639,6 +639,7 @@ namespace uima {
 			iv_cas->getBaseIndexRepository().addFS(sofa);
 			CAS * tcas = iv_cas->getView(sofa);
 			assert ( EXISTS(tcas) );
+			tcas->registerView(sofa);
 			if (sofa.getSofaRef() == 1) {
 				iv_cas->registerInitialSofa();
 			} else {
-- 
2.43.0


From 178f41ab1fd9c0b8ffb3b9acc446ec4e3e8d1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 75/99] fix: getIndexedFSs returned a structure once for each
 of its indexes

---
 src/cas/lowlevel_indexrepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexrepository.cpp b/src/cas/lowlevel_indexrepository.cpp
index d8a90e1..600bc8f 100644
--- a/src/cas/lowlevel_indexrepository.cpp
+++ b/src/cas/lowlevel_indexrepository.cpp
@@ -197,7 +197,7 @@ namespace uima {
       }
 	  // eliminate duplicates
       sort(fillit.begin(), fillit.end());
-      vector<TyFS>::iterator end = unique(fillit.begin(), fillit.end());
+      fillit.erase(unique(fillit.begin(), fillit.end()), fillit.end());
     }
 
     void IndexRepository::reset() {
-- 
2.43.0


From 5ecd4e2710f2da48197bb1df466bb40921ab7f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:01 +0000
Subject: [PATCH 76/99] fix: XCAS output rounded floats and doubles to six
 digits

---
 src/cas/xmlwriter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 650fd51..e19ef29 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -442,7 +442,10 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      stringstream s;
+      s.precision(9);
+      s << fs.getFloatValue(f);
+      os << s.str() << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -459,6 +462,7 @@ namespace uima {
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
       stringstream s;
+      s.precision(17);
       s << fs.getDoubleValue(f);
       os << s.str() << "\"";
     } else {
@@ -481,7 +485,10 @@ namespace uima {
       os << " size=\"" << array.size() << "\">" << endl;
       for (i=0; i<array.size(); ++i) {
         os << "  <" << tag << ">";
-        os << array.get(i);
+        stringstream s;
+        s.precision(9);
+        s << array.get(i);
+        os << s.str();
         os << "</" << tag << ">" << endl;
       }
       os << " </" << array.getType().getName() << ">" << endl;
@@ -566,6 +573,7 @@ namespace uima {
           for (i=0; i<array.size(); ++i) {
             os << "  <" << "i" << ">";
             stringstream s;
+            s.precision(17);
             s << array.get(i);
             os << s.str();
             os << "</" << "i" << ">" << endl;
-- 
2.43.0


From 2a46e360fc935a28e7f54a372e08c05f837f8c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:01 +0000
Subject: [PATCH 77/99] fix: infinite, NaN and denormalized doubles were not
 read from XCAS

---
 src/cas/xcasdeserializer_handler.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 53012d7..a45e4f0 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -674,11 +674,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << UnicodeStringRef(buffer).asUTF8();
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, strtod(UnicodeStringRef(buffer).asUTF8().c_str(), NULL));
         break;
       }
     default: {    //array of FSs
@@ -809,11 +805,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
           if (featVal.length() > 0) {
             string strval = UnicodeStringRef(featVal).asUTF8();
-            long double doubleval;
-            stringstream s;
-            s << strval.c_str();
-            s >> doubleval;
-            fs.setDoubleValue(feat, doubleval );
+            fs.setDoubleValue(feat, strtod(strval.c_str(), NULL) );
           }
           break;
         }
-- 
2.43.0


From 3277fa2c665d10b0bd3dbec071f5e5ec7d5ab530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:01 +0000
Subject: [PATCH 78/99] fix: empty strings were read from XCAS as missing
 values

---
 src/cas/xcasdeserializer_handler.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index a45e4f0..693f889 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -756,9 +756,7 @@ namespace uima {
           break;
         }
       case internal::gs_tyStringType: {
-          if (featVal.length() > 0) {
-            fs.setStringValue(feat, featVal);
-          }
+          fs.setStringValue(feat, featVal);
           break;
         }
       case internal::gs_tyByteType: {
-- 
2.43.0


From f0636373387c1a9dfb62e01f825ec4aaed298f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:01 +0000
Subject: [PATCH 79/99] fix: XCAS output with an empty byte array was not
 well-formed

---
 src/cas/xmlwriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index e19ef29..8fc3ff9 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -558,6 +558,8 @@ namespace uima {
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
         }
       } else if ( t == iv_booleanArrayType ) {
         writeArray( os, BooleanArrayFS(fs), "i");
-- 
2.43.0


From 539c4aaeed1bff4a037d53a24ceb9a6a1e098a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:01 +0000
Subject: [PATCH 80/99] fix: XCAS deserialization lost the text of views
 without an indexed document annotation

---
 src/cas/xcasdeserializer_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 693f889..85336b1 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -484,6 +484,7 @@ namespace uima {
       iv_cas->getBaseIndexRepository().addFS(sofa);
       CAS * tcas = iv_cas->getView(sofa);
       assert ( EXISTS(tcas) );
+      tcas->registerView(sofa);
       if (sofa.getSofaRef() == 1) {
         iv_cas->registerInitialSofa();
       } else {
-- 
2.43.0


From b3097ba4da1ab7cd1d910e016d52f0b534493b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 81/99] fix: reading XCAS overflowed a buffer if a structure is
 indexed in many views

---
 src/cas/xcasdeserializer_handler.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 85336b1..96c782b 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -457,13 +457,10 @@ namespace uima {
 //               else if (!attrValue.compare("false") == 0)
 //                 sofaRef = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
 //             }
-          char indexes[256];
-          // we have a problem here if number of indexed views is ridiculously big
-          strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-          char* ptr = strtok (indexes," ");
-          while (ptr != NULL) {
-            sofaRef->push_back(atoi(ptr));
-            ptr = strtok (NULL, " ");
+          stringstream indexes(UnicodeStringRef(attrValue).asUTF8());
+          string index;
+          while (indexes >> index) {
+            sofaRef->push_back(atoi(index.c_str()));
           }
         } else {
           handleFeature(type, addr, attrName, attrValue, false);
@@ -530,13 +527,10 @@ namespace uima {
 //                 indexRep = 1;
 //               else if (!attrValue.compare("false") == 0)
 //                 indexRep = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
-        char indexes[256];
-        // we have a problem here if number of indexed views is ridiculously big
-        strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-        char* ptr = strtok (indexes," ");
-        while (ptr != NULL) {
-          indexRep->push_back(atoi(ptr));
-          ptr = strtok (NULL, " ");
+        stringstream indexes(UnicodeStringRef(attrValue).asUTF8());
+        string index;
+        while (indexes >> index) {
+          indexRep->push_back(atoi(index.c_str()));
         }
       } else {
         ErrorInfo errInfo;
-- 
2.43.0


From 4155f67433827664f83166bfb9301ceea8dc770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 82/99] fix: text in CDATA sections of descriptors was ignored

---
 src/framework/taespecifierbuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 4fcdcee..d4cc3a3 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2242,7 +2242,8 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     icu::UnicodeString spannedText;
     size_t i;
     for (i=0; i < children->getLength(); i++) {
-      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE) {
+      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE
+          || children->item(i)->getNodeType() == DOMNode::CDATA_SECTION_NODE) {
         spannedText.append(convert(children->item(i)->getNodeValue()));
       } else {
         const icu::UnicodeString & childTag = convert((children->item(i))->getNodeName());
-- 
2.43.0


From 1776961b4b3a2da6ecfeff0363f8a41a8f14d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 83/99] fix: an empty array as parameter value crashed the
 descriptor parser

---
 src/framework/taespecifierbuilder.cpp      | 25 +++++++++++++++++++++-
 src/framework/uima/taespecifierbuilder.hpp |  2 ++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index d4cc3a3..1a3bd0b 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -746,6 +746,25 @@ namespace uima {
   
  
 
+  /**
+   * An empty array does not tell the type of its values: use the type of the declared parameter.
+   */
+  void XMLParser::setTypeOfEmptyArray(AnalysisEngineMetaData const & aeMetadata,
+                                      icu::UnicodeString const & groupName,
+                                      NameValuePair & nvPair) {
+    if (!nvPair.isMultiValued() || nvPair.getType() != ConfigurationParameter::STRING
+        || !nvPair.extractStringValues().empty()) {
+      return;
+    }
+    const vector <const ConfigurationParameter *> params = aeMetadata.getConfigurationParameters(groupName);
+    for (size_t i=0; i < params.size(); i++) {
+      if (params[i]->getName() == nvPair.getName()) {
+        nvPair.define(params[i]->getType(), ConfigurationParameter::MULTIPLE_VALUES);
+        return;
+      }
+    }
+  }
+
   void XMLParser::buildConfigParamSettings(AnalysisEngineMetaData & aeMetadata,
       DOMElement * descElem) {
     assert(EXISTS(descElem));
@@ -796,6 +815,7 @@ namespace uima {
                                  UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
                                  ErrorInfo::recoverable);
             }
+            setTypeOfEmptyArray(aeMetadata, groupName, *nvPair);
             aeMetadata.addNameValuePair(groupName, nvPair);
           }
         }
@@ -813,6 +833,7 @@ namespace uima {
                              UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
                              ErrorInfo::recoverable);
         }
+        setTypeOfEmptyArray(aeMetadata, aeMetadata.getGroupNameWhenNotSpec(), *nvPair);
         aeMetadata.addNameValuePair(nvPair);
       } else {
         /**
@@ -884,7 +905,9 @@ namespace uima {
         DOMNodeList * arrayEntries = child->getChildNodes();
         assert( EXISTS(arrayEntries) );
         //the type must be the same for all elements in the array
-        nvPair.define(findTypeForValue(findFirstElementNode(arrayEntries)), ConfigurationParameter::MULTIPLE_VALUES);
+        DOMElement * firstEntry = findFirstElementNode(arrayEntries);
+        nvPair.define(EXISTS(firstEntry) ? findTypeForValue(firstEntry) : ConfigurationParameter::STRING,
+                      ConfigurationParameter::MULTIPLE_VALUES);
         //now iterate over entries, adding the values
         size_t j;
         for (j=0; j < arrayEntries->getLength(); j++) {
diff --git a/src/framework/uima/taespecifierbuilder.hpp b/src/framework/uima/taespecifierbuilder.hpp
index 9a6fc20..93a2509 100644
--- a/src/framework/uima/taespecifierbuilder.hpp
+++ b/src/framework/uima/taespecifierbuilder.hpp
@@ -194,6 +194,8 @@ namespace uima {
     ConfigurationParameter * buildConfigParam(DOMElement * specElem);
     NameValuePair * buildNameValuePair(DOMElement * specElem);
     void buildValue(NameValuePair & nvPair, DOMElement * specElem);
+    static void setTypeOfEmptyArray(AnalysisEngineMetaData const & aeMetadata, icu::UnicodeString const & groupName,
+                                    NameValuePair & nvPair);
     ConfigurationParameter::EnParameterType findTypeForValue(DOMNode * descElem);
 
 	void buildTypeSystemSpecifier(TypeSystemDescription & tsDesc, DOMElement* specElem,const icu::UnicodeString & xmlFileLoc);
-- 
2.43.0


From 98314b8b93f885a57da74d978fc161eceaf65874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 84/99] fix: import cycles through different paths to a file
 never ended

---
 src/framework/resmgr.cpp                | 32 +++++++++++++++++++++----
 src/framework/taespecifierbuilder.cpp   | 12 ++++++----
 src/framework/typesystemdescription.cpp |  7 +++---
 src/framework/uima/resmgr.hpp           |  6 +++++
 4 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 111ff0e..96ebead 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -56,6 +56,7 @@ int rc5 =   _CrtSetReportMode( _CRT_ASSERT, _CRTDBG_MODE_FILE );
 _HFILE h3 = _CrtSetReportFile( _CRT_ASSERT, _CRTDBG_FILE_STDOUT );
 #endif
 
+#include <stdlib.h>
 #include <jni.h>
 #include "uima/envvar.hpp"
 #include "uima/trace.hpp"
@@ -795,12 +796,33 @@ namespace uima {
     return *iv_frameworkLogger;
   }
 
-  icu::UnicodeString ResourceManager::resolveFilename(icu::UnicodeString const & filename, icu::UnicodeString const & lastFilename) {
-    auto_array<char> filename_cstr( new char[filename.length() + 1] );
-    filename.extract(0, filename.length(), filename_cstr.get());
+  /** The filename in the default codepage, where a character may take several bytes */
+  static char * newNativeFilename(icu::UnicodeString const & filename) {
+    uint32_t len = (uint32_t) filename.extract(0, filename.length(), (char *) NULL, (uint32_t) 0);
+    char * result = new char[len + 1];
+    filename.extract(0, filename.length(), result, len);
+    result[len] = 0;
+    return result;
+  }
+
+  icu::UnicodeString ResourceManager::canonicalFilename(icu::UnicodeString const & filename) {
+    auto_array<char> filename_cstr( newNativeFilename(filename) );
+#if defined(_MSC_VER)
+    char * path = _fullpath(NULL, filename_cstr.get(), 0);
+#else
+    char * path = realpath(filename_cstr.get(), NULL);
+#endif
+    if (path == NULL) {
+      return filename;
+    }
+    icu::UnicodeString result(path);
+    free(path);
+    return result;
+  }
 
-    auto_array<char> lastFilename_cstr( new char[lastFilename.length() + 1] );
-    lastFilename.extract(0, lastFilename.length(), lastFilename_cstr.get());
+  icu::UnicodeString ResourceManager::resolveFilename(icu::UnicodeString const & filename, icu::UnicodeString const & lastFilename) {
+    auto_array<char> filename_cstr( newNativeFilename(filename) );
+    auto_array<char> lastFilename_cstr( newNativeFilename(lastFilename) );
 
     //build the filename
     util::Filename fileLoc(filename_cstr.get());
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 1a3bd0b..b761aec 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -1874,13 +1874,15 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 
     icu::UnicodeString importfn = ResourceManager::resolveFilename(fileName, lastFileName);
 
+    // the same file may be named by different paths
+    icu::UnicodeString canonicalfn = ResourceManager::canonicalFilename(importfn);
     for (size_t i=0; i < alreadyImportedLocations.size() ;i++) {
-      if (importfn.compare(alreadyImportedLocations[i]) == 0 )  {
+      if (canonicalfn.compare(alreadyImportedLocations[i]) == 0 )  {
         return;
       }
     }
 
-    alreadyImportedLocations.push_back(importfn);
+    alreadyImportedLocations.push_back(canonicalfn);
     size_t uiLen = importfn.length();
     auto_array<UChar> arBuffer( new UChar[uiLen + 1] );
     assert( EXISTS(arBuffer.get()));
@@ -1956,12 +1958,14 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 
     icu::UnicodeString importfn = ResourceManager::resolveFilename(fileName, lastFileName);
 
+    // the same file may be named by different paths
+    icu::UnicodeString canonicalfn = ResourceManager::canonicalFilename(importfn);
     for (size_t i=0; i < alreadyImportedLocations.size(); i++) {
-      if (importfn.compare(alreadyImportedLocations[i]) == 0 )  {
+      if (canonicalfn.compare(alreadyImportedLocations[i]) == 0 )  {
         return;
       }
     }
-    alreadyImportedLocations.push_back(importfn);
+    alreadyImportedLocations.push_back(canonicalfn);
 
     size_t uiLen = importfn.length();
     auto_array<UChar> arBuffer( new UChar[uiLen + 1] );
diff --git a/src/framework/typesystemdescription.cpp b/src/framework/typesystemdescription.cpp
index f69c3ff..04b9db0 100644
--- a/src/framework/typesystemdescription.cpp
+++ b/src/framework/typesystemdescription.cpp
@@ -220,10 +220,11 @@ namespace uima {
       //classpath and needs to be handle in Java.
       if (pImport->getLocation().length() > 0) {
         const icu::UnicodeString & fileLocation = pImport->findAbsoluteUrl(iv_xmlFileLoc);
-        //check it is not in already Imported list
+        //check it is not in already Imported list: the same file may be named by different paths
 		bool needsToBeResolved=true;
+        const icu::UnicodeString canonicalLocation = ResourceManager::canonicalFilename(fileLocation);
         for (size_t j=0; j < alreadyImportedTypeSystemLocations.size() ;j++) {
-          if (fileLocation.compare(alreadyImportedTypeSystemLocations[j]) == 0 )  {
+          if (canonicalLocation.compare(alreadyImportedTypeSystemLocations[j]) == 0 )  {
 			  needsToBeResolved=false;
 			  break;
 		  }
@@ -264,7 +265,7 @@ namespace uima {
     TypeSystemDescription * pDesc = builder.buildTypeSystemSpecifierFromFile(fileLocation);
     if (EXISTS(pDesc)) {
       //add this file to already imported list
-      alreadyImportedTypeSystemLocations.push_back(fileLocation);
+      alreadyImportedTypeSystemLocations.push_back(ResourceManager::canonicalFilename(fileLocation));
 
       //resolve imports within this descriptor
       pDesc->resolveImports(alreadyImportedTypeSystemLocations);
diff --git a/src/framework/uima/resmgr.hpp b/src/framework/uima/resmgr.hpp
index 79699a2..c51fbd5 100644
--- a/src/framework/uima/resmgr.hpp
+++ b/src/framework/uima/resmgr.hpp
@@ -240,6 +240,12 @@ namespace uima {
     static icu::UnicodeString resolveFilename(icu::UnicodeString const & filename,
         icu::UnicodeString const & lastFilename);
 
+    /**
+     * The absolute name of an existing file, without "." and ".." and the same for every path
+     * that leads to the file; any other name is returned as it is.
+     */
+    static icu::UnicodeString canonicalFilename(icu::UnicodeString const & filename);
+
 
     /**
       * Register Logger. Caller owns the logger instance.
-- 
2.43.0


From 852faa1296c558ea13b140d0fe8dc8681ecf333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 85/99] fix: the indexes of a collection were looked for in its
 first child element

---
 src/framework/taespecifierbuilder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index b761aec..cd5a5db 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -1311,12 +1311,16 @@ namespace uima {
         return;
       }
 	  for (size_t i=0; i < children->getLength(); i++) {
-        if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
+        if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE
+            || XMLString::compareString(children->item(i)->getNodeName(), convert(TAG_FS_INDEXES)) != 0) {
           continue;
         }
 		descElem = (DOMElement*) children->item(i);
 		break;
 	  }
+	  if ( XMLString::compareString(descElem->getNodeName(), convert(TAG_FS_INDEXES)) != 0) {
+        return; // there are no index descriptions
+      }
 	}
 
     assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_FS_INDEXES)) == 0);
-- 
2.43.0


From cd581fe1ce1ce282fa49288aec93860c23dfd3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:00 +0000
Subject: [PATCH 86/99] fix: text and floats of descriptions were not written
 faithfully

---
 src/framework/taespecifier.cpp | 95 ++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 44 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 45bb294..cfd4846 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -674,6 +674,13 @@ namespace uima {
     }
   }
 
+  /** Append text with the characters escaped that have a meaning in XML */
+  static void appendText(icu::UnicodeString const & text, icu::UnicodeString & s) {
+    icu::UnicodeString escaped;
+    XMLWriterABase::normalize(UnicodeStringRef(text), escaped);
+    s.append(escaped);
+  }
+
   void appendCapabilities(Capability::TyVecCapabilityTofs const & v, char const * xmlTag, icu::UnicodeString & s) {
     size_t i;
     for (i=0; i<v.size(); ++i) {
@@ -681,7 +688,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -696,7 +703,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -714,7 +721,7 @@ namespace uima {
 
   void appendFloat(float f, icu::UnicodeString & s) {
     char c[256];
-    sprintf(c, "%f", f);
+    sprintf(c, "%.9g", f);
     s.append(c);
   }
 
@@ -732,10 +739,10 @@ namespace uima {
       ConfigurationParameter const * confParam = configParams[i];
       s.append("<configurationParameter>");
       s.append("<name>");
-      s.append(confParam->getName());
+      appendText(confParam->getName(), s);
       s.append("</name>");
       s.append("<description>");
-      s.append(confParam->getDescription());
+      appendText(confParam->getDescription(), s);
       s.append("</description>");
       s.append("<type>");
       ConfigurationParameter::EnParameterType paramType = confParam->getType();
@@ -773,7 +780,7 @@ namespace uima {
       NameValuePair const * nvp = nvps[i];
       s.append("<nameValuePair>");
       s.append("<name>");
-      s.append( nvp->getName() );
+      appendText(nvp->getName(), s);
       s.append("</name>");
 
       s.append("<value>");
@@ -814,7 +821,7 @@ namespace uima {
             vector<icu::UnicodeString> const & v = nvp->extractStringValues();
             for (j=0; j<v.size(); ++j) {
               s.append("<string>");
-              s.append(v[j]);
+              appendText(v[j], s);
               s.append("</string>");
             }
             break;
@@ -850,7 +857,7 @@ namespace uima {
         case ConfigurationParameter::STRING: {
             icu::UnicodeString const & v = nvp->extractStringValue();
             s.append("<string>");
-            s.append(v);
+            appendText(v, s);
             s.append("</string>");
             break;
           }
@@ -879,10 +886,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -911,7 +918,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
               s.append("<featureName>");
-              s.append(ixKeyDesc->getFeatureName());
+              appendText(ixKeyDesc->getFeatureName(), s);
               s.append("</featureName>");
 
               s.append("<comparator>");
@@ -955,7 +962,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -975,15 +982,15 @@ namespace uima {
       for (i=0; i<sofamappingVec.size(); ++i) {
         s.append("<sofaMapping>");
         s.append("<componentKey>");
-        s.append(sofamappingVec[i]->getComponentKey());
+        appendText(sofamappingVec[i]->getComponentKey(), s);
         s.append("</componentKey>");
 
         s.append("<componentSofaName>");
-        s.append(sofamappingVec[i]->getComponentSofaName());
+        appendText(sofamappingVec[i]->getComponentSofaName(), s);
         s.append("</componentSofaName>");
 
         s.append("<aggregateSofaName>");
-        s.append(sofamappingVec[i]->getAggregateSofaName());
+        appendText(sofamappingVec[i]->getAggregateSofaName(), s);
         s.append("</aggregateSofaName>");
 
         s.append("</sofaMapping>");
@@ -1004,7 +1011,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1034,7 +1041,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1072,7 +1079,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1124,7 +1131,7 @@ namespace uima {
 
     if (isCasConsumer) {
       s.append("<implementationName>");
-      s.append(getAnnotatorImpName());
+      appendText(getAnnotatorImpName(), s);
       s.append("</implementationName>");
     }
     // primitive
@@ -1137,7 +1144,7 @@ namespace uima {
       if (isPrimitive()) {
         // annotator implementation
         s.append("<annotatorImplementationName>");
-        s.append(getAnnotatorImpName());
+        appendText(getAnnotatorImpName(), s);
         s.append("</annotatorImplementationName>");
       } else {
         // delegates
@@ -1146,7 +1153,7 @@ namespace uima {
         TyMapDelegateSpecs::const_iterator cit;
         for (cit = delegates.begin(); cit != delegates.end(); ++cit) {
           s.append("<delegateAnalysisEngine key=\"");
-          s.append( (*cit).first );
+          appendText((*cit).first, s);
           s.append("\">");
           icu::UnicodeString delBuf;
           (*cit).second->toXMLBufferNoXMLHeader(delBuf);
@@ -1166,15 +1173,15 @@ namespace uima {
         for (i=0; i<sofamappingVec.size(); ++i) {
           s.append("<sofaMapping>");
           s.append("<componentKey>");
-          s.append(sofamappingVec[i]->getComponentKey());
+          appendText(sofamappingVec[i]->getComponentKey(), s);
           s.append("</componentKey>");
 
           s.append("<componentSofaName>");
-          s.append(sofamappingVec[i]->getComponentSofaName());
+          appendText(sofamappingVec[i]->getComponentSofaName(), s);
           s.append("</componentSofaName>");
 
           s.append("<aggregateSofaName>");
-          s.append(sofamappingVec[i]->getAggregateSofaName());
+          appendText(sofamappingVec[i]->getAggregateSofaName(), s);
           s.append("</aggregateSofaName>");
 
           s.append("</sofaMapping>");
@@ -1219,7 +1226,7 @@ namespace uima {
 
     //   version
     s.append("<version>");
-    s.append( md.getVersion() );
+    appendText(md.getVersion(), s);
     s.append("</version>");
 
     //   vendor
@@ -1236,7 +1243,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1266,7 +1273,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1304,7 +1311,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1334,7 +1341,7 @@ namespace uima {
       vector<icu::UnicodeString> const & v = flow->getNodes();
       for (i=0; i<v.size(); ++i) {
         s.append("<node>");
-        s.append(v[i]);
+        appendText(v[i], s);
         s.append("</node>");
       }
       if (flow->getFlowConstraintsType() == FlowConstraints::FIXED) {
@@ -1358,7 +1365,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -1377,11 +1384,11 @@ namespace uima {
           ImportDescription const * pImport = importVec[i];
           if ( pImport->getName().length() > 0) {
             s.append("<import name=\"");
-            s.append(pImport->getName());
+            appendText(pImport->getName(), s);
             s.append("\"/>");
           } else {
             s.append("<import location=\"");
-            s.append(pImport->getLocation());
+            appendText(pImport->getLocation(), s);
             s.append("\"/>");
           }
         }
@@ -1392,7 +1399,7 @@ namespace uima {
           TypeDescription const * td = tdVec[i];
           s.append("<typeDescription>");
           s.append("<name>");
-          s.append(td->getName());
+          appendText(td->getName(), s);
           s.append("</name>");
 
           s.append("<description>");
@@ -1402,7 +1409,7 @@ namespace uima {
           s.append("</description>");
 
           s.append("<supertypeName>");
-          s.append(td->getSuperTypeName());
+          appendText(td->getSuperTypeName(), s);
           s.append("</supertypeName>");
 
           TypeDescription::TyVecpFeatureDescriptions const & fdVec = td->getFeatureDescriptions();
@@ -1412,7 +1419,7 @@ namespace uima {
               FeatureDescription const * fs = fdVec[j];
               s.append("<featureDescription>");
               s.append("<name>");
-              s.append(fs->getName());
+              appendText(fs->getName(), s);
               s.append("</name>");
               s.append("<description>");
               out.setTo("");
@@ -1420,11 +1427,11 @@ namespace uima {
               s.append(out);
               s.append("</description>");
               s.append("<rangeTypeName>");
-              s.append(fs->getRangeTypeName());
+              appendText(fs->getRangeTypeName(), s);
               s.append("</rangeTypeName>");
               if (0 < fs->getElementType().length() ) {
                 s.append("<elementType>");
-                s.append(fs->getElementType());
+                appendText(fs->getElementType(), s);
                 s.append("</elementType>");
               }
               if (fs->isMultipleReferencesAllowed() ) {
@@ -1444,7 +1451,7 @@ namespace uima {
               AllowedValue const * value = allowVec[j];
               s.append("<value>");
               s.append("<string>");
-              s.append(value->getName());
+              appendText(value->getName(), s);
               s.append("</string>");
               s.append("<description>");
               out.setTo("");
@@ -1471,11 +1478,11 @@ namespace uima {
         ImportDescription const * pImport = ixImportVec[i];
         if ( pImport->getName().length() > 0) {
           s.append("<import name=\"");
-          s.append(pImport->getName());
+          appendText(pImport->getName(), s);
           s.append("\"/>");
         } else {
           s.append("<import location=\"");
-          s.append(pImport->getLocation());
+          appendText(pImport->getLocation(), s);
           s.append("\"/>");
         }
       }
@@ -1489,10 +1496,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -1521,7 +1528,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
             s.append("<featureName>");
-            s.append(ixKeyDesc->getFeatureName());
+            appendText(ixKeyDesc->getFeatureName(), s);
             s.append("</featureName>");
 
             s.append("<comparator>");
@@ -1578,7 +1585,7 @@ namespace uima {
       Capability::TyVecCapabilityLanguages const & suppLangVec = cap->getSupportedLanguages();
       for (j=0; j<suppLangVec.size(); ++j) {
         s.append("<language>");
-        s.append(suppLangVec[j]);
+        appendText(suppLangVec[j], s);
         s.append("</language>");
       }
       s.append("</languagesSupported>");
-- 
2.43.0


From bee4a97ad574012c319583caf1d321f9f051d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:18 +0000
Subject: [PATCH 87/99] fix: restrictions of configuration parameters were not
 written

---
 src/framework/taespecifier.cpp      | 11 +++++++++++
 src/framework/uima/config_param.hpp |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index cfd4846..17ce4c9 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -769,6 +769,17 @@ namespace uima {
       s.append("<mandatory>");
       appendBool(confParam->isMandatory(), s);
       s.append("</mandatory>");
+      vector<icu::UnicodeString> const & restrictions = confParam->getRestrictions();
+      if (restrictions.size() > 0) {
+        s.append("<restrictOverrideTo>");
+        for (size_t j=0; j<restrictions.size(); ++j) {
+          if (j > 0) {
+            s.append(" ");
+          }
+          appendText(restrictions[j], s);
+        }
+        s.append("</restrictOverrideTo>");
+      }
       s.append("</configurationParameter>");
     }
   }
diff --git a/src/framework/uima/config_param.hpp b/src/framework/uima/config_param.hpp
index f552377..5cbef89 100644
--- a/src/framework/uima/config_param.hpp
+++ b/src/framework/uima/config_param.hpp
@@ -153,9 +153,9 @@ namespace uima {
     * setting this parameter. If the vector is empty, all delegates
     * are possibly affected.
     **/
-    /*       const std::vector<icu::UnicodeString> & getRestrictions() const{ */
-    /*          return iv_vecRestrictedToDelegates;                           */
-    /*       }                                                                */
+    const std::vector<icu::UnicodeString> & getRestrictions() const {
+      return iv_vecRestrictedToDelegates;
+    }
 
   private:
     icu::UnicodeString iv_name;
-- 
2.43.0


From bcc6a487cc825645879b189b1bccaae15791eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:18 +0000
Subject: [PATCH 88/99] fix: writing an aggregate without flow constraints
 dereferenced NULL

---
 src/framework/taespecifier.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 17ce4c9..90ceb74 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -1340,10 +1340,9 @@ namespace uima {
     s.append("</configurationParameterSettings>");
 
     // flow constraints
-    if (!isPrimitive()) {
+    if (!isPrimitive() && md.getFlowConstraints() != NULL) {
       s.append("<flowConstraints>");
-      FlowConstraints const * pFlow = md.getFlowConstraints();
-      FlowConstraints * flow = CONST_CAST(FlowConstraints *, pFlow);
+      FlowConstraints * flow = CONST_CAST(FlowConstraints *, md.getFlowConstraints());
       if (flow->getFlowConstraintsType() == FlowConstraints::FIXED) {
         s.append("<fixedFlow>");
       } else if (flow->getFlowConstraintsType() == FlowConstraints::CAPABILITYLANGUAGE) {
-- 
2.43.0


From 7aa406833cd2e85a1d546427e7b37d89db57ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:18 +0000
Subject: [PATCH 89/99] fix: writing a description with empty configuration
 groups only dereferenced NULL

---
 src/framework/taespecifier.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 90ceb74..9b4e133 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -204,6 +204,9 @@ namespace uima {
     TyConfigGroup::iterator ite = iv_configurationGroups.find(groupName);
     if (ite == iv_configurationGroups.end()) {
       iv_configurationGroups [groupName] = ConfigurationGroup();
+      if (groupName.compare(CONFIG_GROUP_NAME_WHEN_NO_GROUPS) != 0) {
+        iv_hasGroups = true;
+      }
       return UIMA_ERR_NONE;
     } else {
       UIMA_EXC_THROW_NEW(DuplicateConfigElemException,
-- 
2.43.0


From 8c0f1898872514c3c3f2bc14ec8d176d47cd4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:15 +0000
Subject: [PATCH 90/99] fix: whether a feature allows multiple references was
 not written with type systems

---
 src/cas/xmltypesystemwriter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cas/xmltypesystemwriter.cpp b/src/cas/xmltypesystemwriter.cpp
index 02c3a53..900200a 100644
--- a/src/cas/xmltypesystemwriter.cpp
+++ b/src/cas/xmltypesystemwriter.cpp
@@ -75,8 +75,11 @@ namespace uima {
         assert( range.isValid());
         os <<"<" << uima::internal::XMLConstants::TAGNAME_FEATURE
         << " " <<  uima::internal::XMLConstants::ATTRIBUTENAME_NAME << "=\"" << features[i].getName()
-        << "\" " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << "=\"" << range.getName() << "\"/>" << endl;
-// TODO ? add multiRefs ?
+        << "\" " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << "=\"" << range.getName() << "\"";
+        if (features[i].isMultipleReferencesAllowed()) {
+          os << " " << uima::internal::XMLConstants::ATTRIBUTENAME_MULTIREFS << "=\"true\"";
+        }
+        os << "/>" << endl;
       }
     }
     vector<uima::Type> subTypes;
@@ -95,7 +98,7 @@ namespace uima {
     "<!ELEMENT " << uima::internal::XMLConstants::TAGNAME_TYPE << " (" << uima::internal::XMLConstants::TAGNAME_FEATURE << "|" << uima::internal::XMLConstants::TAGNAME_TYPE << ")*>\n"
     "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_TYPE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED>\n"
     "<!ELEMENT " << uima::internal::XMLConstants::TAGNAME_FEATURE << " EMPTY>\n"
-    "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_FEATURE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << " CDATA #REQUIRED >\n"
+    "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_FEATURE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << " CDATA #REQUIRED " << uima::internal::XMLConstants::ATTRIBUTENAME_MULTIREFS << " CDATA #IMPLIED >\n"
     "]>" << endl;
 
     os << "<" << uima::internal::XMLConstants::TAGNAME_TYPEHIERARCHY << ">" << endl;
-- 
2.43.0


From 8cf56010d601d5f8d62d8e516902e6e98e967882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:28 +0000
Subject: [PATCH 91/99] fix: arrays allocated by the JNI bridge were freed with
 the wrong operator

---
 src/jni/jni_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jni/jni_utils.cpp b/src/jni/jni_utils.cpp
index 2939c42..f1559d9 100644
--- a/src/jni/jni_utils.cpp
+++ b/src/jni/jni_utils.cpp
@@ -193,7 +193,7 @@ jintArray JNIUtils::createIntArray(JNIEnv* jeEnv, vector<uima::internal::Seriali
 
     jeEnv->SetIntArrayRegion(jiArr, 0, uiLength, pJIntArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJIntArray;
+    delete [] pJIntArray;
   }
 
   return jiArr;
@@ -270,7 +270,7 @@ jbyteArray JNIUtils::createByteArray(JNIEnv* jeEnv, vector<char> const & crVec)
 
     jeEnv->SetByteArrayRegion(jiArr, 0, uiLength, pJByteArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJByteArray;
+    delete [] pJByteArray;
   }
 
   return jiArr;
@@ -306,7 +306,7 @@ jshortArray JNIUtils::createShortArray(JNIEnv* jeEnv, vector<short> const & crVe
 
     jeEnv->SetShortArrayRegion(jiArr, 0, uiLength, pJShortArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJShortArray;
+    delete [] pJShortArray;
   }
 
   return jiArr;
@@ -343,7 +343,7 @@ jlongArray JNIUtils::createLongArray(JNIEnv* jeEnv, vector<INT64> const & crVec)
 
     jeEnv->SetLongArrayRegion(jiArr, 0, uiLength, pJLongArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJLongArray;
+    delete [] pJLongArray;
   }
 
   return jiArr;
-- 
2.43.0


From 584c49795e73c5d54243b4b3fc9d8b2e96770559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:32 +0000
Subject: [PATCH 92/99] fix: names of indexes were referenced after being freed
 in serialized definitions

---
 src/cas/internal_casserializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/internal_casserializer.cpp b/src/cas/internal_casserializer.cpp
index de4030b..976d1e2 100644
--- a/src/cas/internal_casserializer.cpp
+++ b/src/cas/internal_casserializer.cpp
@@ -259,8 +259,8 @@ namespace uima {
       size_t i;
       for (i=0; i<uiIndexNum; ++i) {
         uima::lowlevel::IndexDefinition::TyIndexID const & crIndexID = vecIndexIDs[i];
-        rSerializedCAS.iv_vecIndexIDTable[i] = createString( crIndexID.getBuffer(),
-                                               crIndexID.length(), rSerializedCAS);
+        // vecIndexIDs goes away, so its strings have to be copied in any case
+        rSerializedCAS.iv_vecIndexIDTable[i] = rSerializedCAS.addString( UnicodeStringRef(crIndexID) );
         rSerializedCAS.iv_vecIndexKindTable[i] = indexDef.getIndexKind( crIndexID );
         UIMA_TPRINT("Index ID: " << crIndexID );
         // start of the next comparator definition
-- 
2.43.0


From bf830fb1bcb05475793f81abb6fc6619a16bf496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:32 +0000
Subject: [PATCH 93/99] fix: copied names of serialized definitions were lost
 if they were long

---
 src/cas/internal_serializedcas.cpp      |  4 ++--
 src/cas/uima/internal_serializedcas.hpp | 13 +++++--------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/cas/internal_serializedcas.cpp b/src/cas/internal_serializedcas.cpp
index 38e9f1a..e607b01 100644
--- a/src/cas/internal_serializedcas.cpp
+++ b/src/cas/internal_serializedcas.cpp
@@ -56,13 +56,13 @@ namespace uima {
 
 //!TODO check this default size, particularly for blob-based data serialization
     SerializedCAS::SerializedCAS()
-        : iv_stringHeap(10000, 0) {}
+        : iv_strings() {}
 
     SerializedCAS::~SerializedCAS() {}
 
 
     void SerializedCAS::reset() {
-      iv_stringHeap.reset();
+      iv_strings.clear();
 
       iv_ulstrDocument = UnicodeStringRef();
 
diff --git a/src/cas/uima/internal_serializedcas.hpp b/src/cas/uima/internal_serializedcas.hpp
index 989bd3c..e93c8f7 100644
--- a/src/cas/uima/internal_serializedcas.hpp
+++ b/src/cas/uima/internal_serializedcas.hpp
@@ -37,6 +37,7 @@
 /*       Include dependencies                                              */
 /* ----------------------------------------------------------------------- */
 #include "uima/pragmas.hpp" // must be first file to be included to get pragmas
+#include <list>
 #include <vector>
 #include "uima/types.h"
 #include "uima/unistrref.hpp"
@@ -139,8 +140,8 @@ namespace uima {
       SerializedCAS & operator=(SerializedCAS const &);
       SerializedCAS(SerializedCAS const &);
 
-      typedef uima::lowlevel::internal::Heap<UChar> TyStringHeap;
-      TyStringHeap iv_stringHeap;
+      // every string in a buffer of its own, as the tables reference them
+      std::list<icu::UnicodeString> iv_strings;
 
       UnicodeStringRef addString(UnicodeStringRef const & crRef);
 
@@ -299,12 +300,8 @@ namespace uima {
   namespace internal {
 
     inline UnicodeStringRef SerializedCAS::addString(UnicodeStringRef const & crRef) {
-      size_t l = crRef.length();
-      int pOff = iv_stringHeap.increaseHeap(l + 1);
-      UChar* p = iv_stringHeap.getHeapStart() + pOff;
-      assert( (2*l) == crRef.getSizeInBytes() );
-      memcpy(p, crRef.getBuffer(), crRef.getSizeInBytes() );
-      return UnicodeStringRef(p,l);
+      iv_strings.push_back(icu::UnicodeString(crRef.getBuffer(), crRef.length()));
+      return UnicodeStringRef(iv_strings.back());
     }
   }
 }
-- 
2.43.0


From 1ab4b728821a87b9d33313c0d374e1e9f717d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:45 +0000
Subject: [PATCH 94/99] fix: error codes of engine functions called from Java
 were lost

---
 src/jni/jni.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/jni/jni.cpp b/src/jni/jni.cpp
index ac96190..afaa035 100644
--- a/src/jni/jni.cpp
+++ b/src/jni/jni.cpp
@@ -72,6 +72,7 @@
 /* ----------------------------------------------------------------------- */
 static JNILogger * singleton_jni_logger = 0;
 static jobject getSerializedCasData (JNIEnv* jeEnv, jobject joJTaf, jint jiWhichData, uima::internal::SerializedCAS & crSerializedCAS);
+static void throwEngineError (JNIEnv* jeEnv, uima::AnalysisEngine & rEngine, uima::TyErrorId tyErrorId);
 
 /* ----------------------------------------------------------------------- */
 /*       Types / Classes                                                   */
@@ -234,6 +235,18 @@ using namespace std;
       cout << "JNILogger::log(...) Exception in JavaLogging()" << endl;
     }
   }
+/********************************************************************
+ * throws a Java exception for an error code returned by the engine;
+ * the engine need not have logged the error itself.
+ */
+static void throwEngineError (JNIEnv* jeEnv, uima::AnalysisEngine & rEngine, uima::TyErrorId tyErrorId) {
+  uima::ErrorInfo errInfo = rEngine.getAnnotatorContext().getLogger().getLastError();
+  if (errInfo.getErrorId() != tyErrorId) {
+    errInfo = uima::ErrorInfo(UIMA_MSG_ID_NO_MESSAGE_AVAILABLE, tyErrorId, uima::ErrorInfo::unrecoverable);
+  }
+  JNIUtils::throwNewInternalException(jeEnv, errInfo);
+}
+
 /********************************************************************
  ***** JNI Functions
  ********************************************************************/
@@ -658,7 +671,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(destroyJNI) (JNIEnv* jeEnv, jobject joJTaf) {
     uima::TyErrorId tyErrorId = pEngine->destroy();
     if (tyErrorId != UIMA_ERR_NONE) {
       UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
-      JNIUtils::throwNewInternalException(jeEnv, pEngine->getAnnotatorContext().getLogger().getLastError() );
+      throwEngineError(jeEnv, *pEngine, tyErrorId);
       return;
     }
 
@@ -1105,7 +1118,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(batchProcessCompleteJNI) (JNIEnv* jeEnv, jobj
     uima::TyErrorId tyErrorId = pEngine->batchProcessComplete();
     if (tyErrorId != UIMA_ERR_NONE) {
       UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
-      JNIUtils::throwNewInternalException(jeEnv, pEngine->getAnnotatorContext().getLogger().getLastError() );
+      throwEngineError(jeEnv, *pEngine, tyErrorId);
       return;
     }
 
@@ -1138,7 +1151,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(collectionProcessCompleteJNI) (JNIEnv* jeEnv,
     uima::TyErrorId tyErrorId = pEngine->collectionProcessComplete();
     if (tyErrorId != UIMA_ERR_NONE) {
       UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
-      JNIUtils::throwNewInternalException(jeEnv, pEngine->getAnnotatorContext().getLogger().getLastError() );
+      throwEngineError(jeEnv, *pEngine, tyErrorId);
       return;
     }
 
-- 
2.43.0


From fd5d9a23dbf65c2e59b058803f242658e3954726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:45 +0000
Subject: [PATCH 95/99] fix: destroying a Java engine whose initialization
 failed dereferenced NULL

---
 src/jni/jni.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jni/jni.cpp b/src/jni/jni.cpp
index afaa035..066f4d0 100644
--- a/src/jni/jni.cpp
+++ b/src/jni/jni.cpp
@@ -668,7 +668,11 @@ JNIEXPORT void JNICALL JAVA_PREFIX(destroyJNI) (JNIEnv* jeEnv, jobject joJTaf) {
 
     uima::AnalysisEngine * pEngine =  pInstance->getEngine();
 
-    uima::TyErrorId tyErrorId = pEngine->destroy();
+    // there is no engine if its initialization failed
+    uima::TyErrorId tyErrorId = UIMA_ERR_NONE;
+    if (pEngine != NULL) {
+      tyErrorId = pEngine->destroy();
+    }
     if (tyErrorId != UIMA_ERR_NONE) {
       UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
       throwEngineError(jeEnv, *pEngine, tyErrorId);
-- 
2.43.0


From a714ee790ccfe82389d3cebb2683f982230f4dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:46 +0000
Subject: [PATCH 96/99] fix: the view of an invalid Sofa was taken from
 unrelated heap cells

---
 src/cas/cas.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index bc40cd7..fc52a79 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -543,6 +543,14 @@ namespace uima {
 
   CAS* CAS::getView(SofaFS aSofa) {
     CAS* aTcas;
+    if (!aSofa.isValid()) {
+      UIMA_EXC_THROW_NEW(DuplicateSofaNameException,
+                         UIMA_ERR_RESOURCE_NOT_FOUND,
+                         UIMA_MSG_ID_EXC_SOFA_NAME_NOT_FOUND,
+                         UIMA_MSG_ID_NO_MESSAGE_AVAILABLE,
+                         ErrorInfo::unrecoverable
+                        );
+    }
     int sofaNum = iv_heap->getIntValue(internal::FSPromoter::demoteFS(aSofa), internal::gs_tySofaNumFeature);
     map<int, CAS*>::iterator cit = iv_baseCas->iv_sofa2tcasMap.find(sofaNum);
     if (cit == iv_baseCas->iv_sofa2tcasMap.end()) {
-- 
2.43.0


From 3490141f34ec2051aeced348349859f4fd8a0f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:01 +0000
Subject: [PATCH 97/99] fix: errors of annotators told about a type system sent
 from Java were ignored

---
 src/jni/jni.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jni/jni.cpp b/src/jni/jni.cpp
index 066f4d0..2168e2b 100644
--- a/src/jni/jni.cpp
+++ b/src/jni/jni.cpp
@@ -563,7 +563,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(typeSystemInitJNI) (JNIEnv* jeEnv,
     deSerializer.deserializeDefinitions( rSerCAS, casDef );
     UIMA_TPRINT("   done deserializing definitions");
 
-    engineBase.reinitTypeSystem();
+    uima::TyErrorId tyErrorId = engineBase.reinitTypeSystem();
 
     uima::CAS * pCAS = pInstance->getCAS();
     if (pCAS != NULL) {
@@ -576,6 +576,12 @@ JNIEXPORT void JNICALL JAVA_PREFIX(typeSystemInitJNI) (JNIEnv* jeEnv,
     assert( EXISTS(pCAS) );
     pInstance->setCAS(pCAS);
 
+    if (tyErrorId != UIMA_ERR_NONE) {
+      UIMA_TPRINT("Error during type system initialization (code= " << tyErrorId << ")" );
+      throwEngineError(jeEnv, *pEngine, tyErrorId);
+      return;
+    }
+
     UIMA_TPRINT("typeSystemInitJNI() finished");
   } catch (uima::Exception & rException) {
     UIMA_TPRINT("Exception: " << rException.asString() );
-- 
2.43.0


From 5a7a25fe34aca25f8bfe6bf07983cc965300676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:35 +0000
Subject: [PATCH 98/99] fix: descriptors in memory lost characters and left
 temporary files behind

---
 src/framework/engine.cpp              | 35 ++++++---------------------
 src/framework/taespecifierbuilder.cpp |  5 ++++
 2 files changed, 13 insertions(+), 27 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index b581de4..ba80636 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -38,10 +38,6 @@
 
 #include <memory>
 
-extern "C" {
-#include <unistd.h>
-}
-
 #include "uima/macros.h"
 
 #include "uima/engine.hpp"
@@ -56,6 +52,7 @@ extern "C" {
 #include "uima/casdefinition.hpp"
 #include "xercesc/framework/LocalFileInputSource.hpp"
 #include "xercesc/framework/MemBufInputSource.hpp"
+#include "xercesc/util/XMLUni.hpp"
 #include "uima/stltools.hpp"
 XERCES_CPP_NAMESPACE_USE
 
@@ -280,29 +277,11 @@ namespace uima {
       if (bIsFilename) {
         builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), crString);
       } else {
-        /*
-           Some XML4C routines which have to do wiht parsing an in-memory 
-           buffer don't work, so this is why we don't call
-             builder.buildTaeFromMemory(* apTAESpecifier.get(), crString);
-           here but rather create a temp file.
-        */
-        // Use what appears to be a thread-safe routine on Linux & Windows
-	// Updated to use mkstemp - DG
-        /* char* tmpFileName = tempnam(NULL, "TMP"); */
-	char* tmpFileName = strdup("/tmp/TMPXXXXXX");
-	int fd = mkstemp(tmpFileName);
-	close(fd);
-
-        ofstream ofs(tmpFileName);
-        uima::operator<<(ofs, crString);
-        ofs << endl;
-        ofs.close();
-        UIMA_TPRINT("Wrote descriptor to temp file:");
-        UIMA_TPRINT(tmpFileName);
-        builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), tmpFileName);
-
-        remove(tmpFileName);                // or unlink ??
-        free(tmpFileName);                  // Free storage allocated by tempnam
+        // the text is passed on as UTF-8, whatever encoding it declares
+        std::string utf8 = UnicodeStringRef(crString).asUTF8();  // must outlive the input source
+        MemBufInputSource memIS((XMLByte const *) utf8.c_str(), utf8.length(), "sysID");
+        memIS.setEncoding(XMLUni::fgUTF8EncodingString);
+        builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), memIS);
       }
 
       apTAESpecifier->validate();
@@ -495,6 +474,7 @@ namespace uima {
     MemBufInputSource memIS((XMLByte const *)utf8.c_str(),
 		                    utf8.length(),
 							"sysID");
+    memIS.setEncoding(XMLUni::fgUTF8EncodingString);
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     pAe->setTypeSystemDescription(tsDesc);
 
@@ -583,6 +563,7 @@ namespace uima {
     std::string utf8 = usRef.asUTF8();  // must outlive the input source
     MemBufInputSource memIS((XMLByte const *) utf8.c_str(), 
 		                     utf8.length(), "sysID");
+    memIS.setEncoding(XMLUni::fgUTF8EncodingString);
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     return tsDesc;
   }
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index cd5a5db..a59b221 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -53,6 +53,7 @@
 #include "xercesc/sax/SAXParseException.hpp"
 #include "xercesc/framework/LocalFileInputSource.hpp"
 #include "xercesc/framework/MemBufInputSource.hpp"
+#include "xercesc/util/XMLUni.hpp"
 
 #include "uima/taespecifierbuilder.hpp"
 #include "uima/xmlerror_handler.hpp"
@@ -2065,6 +2066,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 	UnicodeStringRef uref(xmlString);
     std::string utf8 = uref.asUTF8();  // must outlive the input source
     MemBufInputSource memIS((XMLByte const *) utf8.c_str(), utf8.length(), "sysID");
+    memIS.setEncoding(XMLUni::fgUTF8EncodingString); // whatever the text declares
     parseAnalysisEngineDescription(taeSpec, memIS);
   }
 
@@ -2218,6 +2220,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 												icu::UnicodeString const & xmlString) {
     std::string xmlStr = UnicodeStringRef(xmlString).asUTF8();
     MemBufInputSource memIS((XMLByte const *) xmlStr.c_str(), xmlStr.length(), "sysID");
+    memIS.setEncoding(XMLUni::fgUTF8EncodingString);
     parseFSIndexDescription(fsDesc, memIS);
   }
 
@@ -2225,6 +2228,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 												icu::UnicodeString const & xmlString) {
 	std::string xmlStr = UnicodeStringRef(xmlString).asUTF8();
     MemBufInputSource memIS((XMLByte const *) xmlStr.c_str(), xmlStr.length(), "sysID");   
+    memIS.setEncoding(XMLUni::fgUTF8EncodingString);
     parseTypePriorities(prioDesc, memIS);
   }
 
@@ -2233,6 +2237,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 												icu::UnicodeString const & xmlString) {
 	std::string xmlStr = UnicodeStringRef(xmlString).asUTF8();
     MemBufInputSource memIS((XMLByte const *) xmlStr.c_str(), xmlStr.length(), "sysID");
+    memIS.setEncoding(XMLUni::fgUTF8EncodingString);
     parseSofaMappings(sofaMapDesc, memIS);
   }
 
-- 
2.43.0


From 8217ff84c5d8babc29452f1faed39812bbba8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:44 +0000
Subject: [PATCH 99/99] fix: sofa mappings could be changed after their
 description was committed

---
 src/framework/taespecifier.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 9b4e133..66f32e2 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -618,6 +618,9 @@ namespace uima {
       AnalysisEngineDescription * del = ite->second;
       del->commit();
     }
+    for (size_t i=0; i < iv_SofaMappings.size(); i++) {
+      iv_SofaMappings[i]->commit();
+    }
     iv_bIsModifiable = false;
   }
 
-- 
2.43.0

