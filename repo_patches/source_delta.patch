From d64bb739010c28b5f8d776a37dad6a17e0530e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 001/173] fix: factorAdjacencyList looked up neighbours by
 position instead of by variable

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 5ffdac3..f4e7509 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -927,8 +927,9 @@ FactorGraph<S,I>::templatedFactorAdjacencyList
    out.resize(numberOfFactors());
    for(size_t f=0; f<numberOfFactors(); ++f) {
       for(size_t v=0 ;v<numberOfVariables(f); ++v) {
-         for(size_t ff=0;ff<numberOfFactors(v);++ff) {
-            const size_t fOfVar=factorOfVariable(v,ff);
+         const size_t variable=variableOfFactor(f,v);
+         for(size_t ff=0;ff<numberOfFactors(variable);++ff) {
+            const size_t fOfVar=factorOfVariable(variable,ff);
             if(f!=fOfVar) {
                out[f].insert(fOfVar);
             }
-- 
2.43.0


From 930d1394173a633b9224548d144e669ee309ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 002/173] fix: isGrid compared path lengths of the wrong corner
 when searching the diagonal corner

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index f4e7509..7bea5c4 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -604,7 +604,7 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
    // find diagonal corner
    size_t diagonalCorner = 1;
    for(size_t i = 1; i < 4; i++) {
-      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner].size()) {
+      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner - 1].size()) {
          diagonalCorner = i;
       }
    }
-- 
2.43.0


From 0f9390cd221ad4e5fa1da16fd369a6258260a656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 003/173] fix: ordering of function identifiers was not a
 strict weak order

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 4bd5cd6..5350f3d 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -881,8 +881,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType < rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex < rhs.functionIndex;
 }
@@ -894,8 +894,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex > rhs.functionIndex;
 }
@@ -907,8 +907,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType <= rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex <= rhs.functionIndex;
 }
@@ -920,8 +920,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >=rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex >= rhs.functionIndex;
 }
-- 
2.43.0


From 5e3bdbb2c9396c231a10df0efc2d5d82ac2c10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 004/173] fix: addFactor left an invalid factor in the model
 when it refused the variable indices

---
 .../opengm/graphicalmodel/graphicalmodel.hxx  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 5350f3d..4078e16 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -668,6 +668,18 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::addFactor
   
    const IndexType indexInVisVector = factorsVis_.size();
    IndexType factorOrder = 0;
+   // refuse invalid variable indices before the model is changed
+   IndexType previousVi = 0;
+   for(ITERATOR it=begin; it!=end; ++it){
+      const IndexType vi = *it;
+      if(it!=begin){
+         OPENGM_CHECK_OP(previousVi,<,vi,
+            "variable indices of a factor must be sorted");
+      }
+      OPENGM_CHECK_OP(vi,<,this->numberOfVariables(),
+         "variable indices of a factor must smaller than gm.numberOfVariables()");
+      previousVi = vi;
+   }
    while(begin!=end){
       factorsVis_.push_back(*begin);
       ++begin;
@@ -720,6 +732,18 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::addFactorNonFinalized
 
    const IndexType indexInVisVector = factorsVis_.size();
    IndexType factorOrder = 0;
+   // refuse invalid variable indices before the model is changed
+   IndexType previousVi = 0;
+   for(ITERATOR it=begin; it!=end; ++it){
+      const IndexType vi = *it;
+      if(it!=begin){
+         OPENGM_CHECK_OP(previousVi,<,vi,
+            "variable indices of a factor must be sorted");
+      }
+      OPENGM_CHECK_OP(vi,<,this->numberOfVariables(),
+         "variable indices of a factor must smaller than gm.numberOfVariables()");
+      previousVi = vi;
+   }
    while(begin!=end){
       factorsVis_.push_back(*begin);
       ++begin;
-- 
2.43.0


From e751b0e91c9d06f632fbb692774eca184d748fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 005/173] fix: DynamicSingleSiteFunction released an
 uninitialised or stale pointer when its size was zero

---
 include/opengm/functions/singlesitefunction.hxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index 2d02123..bdd4a8f 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -141,7 +141,8 @@ public:
    typedef T value_type;
 
    DynamicSingleSiteFunction(const size_t size = 0)
-      :  size_(size)
+      :  dataPointer_(NULL),
+         size_(size)
       {
          if(size_ != 0){
             dataPointer_ = new T[size];
@@ -149,7 +150,8 @@ public:
       }
 
    DynamicSingleSiteFunction(const size_t size, ValueType value)
-      :  size_(size)
+      :  dataPointer_(NULL),
+         size_(size)
       {
          if(size_ != 0) {
             dataPointer_ = new T[size];
@@ -165,6 +167,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const DynamicSingleSiteFunction & other)
+      :  dataPointer_(NULL)
       {
          if(other.size_ != 0) {
             dataPointer_ = new T[other.size_];
@@ -172,7 +175,7 @@ public:
             std::copy(other.dataPointer_, other.dataPointer_+size_, dataPointer_);
          }
          else {
-            size_=0;
+            size_ = 0;
          }
       }
 
@@ -193,6 +196,7 @@ public:
                   std::copy(other.dataPointer_, other.dataPointer_+size_, dataPointer_);
                }
                else {
+                  dataPointer_ = NULL;
                   size_ = 0;
                }
             }
@@ -212,6 +216,7 @@ public:
                size_=size;
             }
             else {
+               dataPointer_ = NULL;
                size_ = 0;
             }
          }
@@ -227,7 +232,8 @@ public:
                std::fill(dataPointer_, dataPointer_+size_, value);
             }
             else {
-               size_=0;
+               dataPointer_ = NULL;
+               size_ = 0;
             }
          }
          else {
-- 
2.43.0


From 18d493a73b53a1027082341ff4306b64b991e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 006/173] fix: isGeneralizedPotts read values outside small
 functions and printed to standard output

---
 .../functions/function_properties_base.hxx    | 115 +++---------------
 1 file changed, 19 insertions(+), 96 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 68882d5..33fcd1f 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -3,6 +3,8 @@
 #define OPENGM_FUNCTION_PROPERTIES_BASE_HXX
 
 #include <cmath>
+#include <map>
+#include <utility>
 
 #include "opengm/opengm.hxx"
 #include "opengm/utilities/shape_accessor.hxx"
@@ -397,107 +399,28 @@ template<class FUNCTION, class VALUE, class INDEX, class LABEL>
 inline bool 
 FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isGeneralizedPotts() const {
    const FunctionType& f=*static_cast<FunctionType const *>(this);
-   if(f.dimension()==2) {
-      LABEL l[] = {0, 1};
-      VALUE v0 = f(l);
-      l[1]=0;
-      VALUE v1 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) {
-            if((l[0]==l[1] && f(l)!=v1) || ((l[0]!=l[1] && f(l)!=v0)) ) return false;
-         }
-      }
-      return true;
+   const size_t dim=f.dimension();
+   if(dim<2 || dim>4) {
+      return false;
    }
-   else  if(f.dimension()==3) {
-      LABEL l[] = {0, 1, 2};
-      VALUE v000 = f(l);
-      l[2]=0; l[1]=1; l[0]=1;
-      VALUE v001 = f(l);
-      l[2]=1; l[1]=0; l[0]=1;
-      VALUE v010 = f(l);
-      l[2]=1; l[1]=1; l[0]=0;
-      VALUE v100 = f(l); 
-      l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) {
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000) ) return false;
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v001) ) return false;
-               if((l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010) ) return false;
-               if((l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100) ) return false;
-               if((l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111) ) return false;
-            }
+   // all label tuples with the same pattern of equal labels must have the same value
+   std::map<size_t, VALUE> valueOfPattern;
+   ShapeWalker<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), dim);
+   for(size_t i=0;i<f.size();++i, ++shapeWalker) {
+      size_t pattern=0;
+      for(size_t j=0;j<dim;++j) {
+         size_t firstEqual=0;
+         while(shapeWalker.coordinateTuple()[firstEqual]!=shapeWalker.coordinateTuple()[j]) {
+            ++firstEqual;
          }
+         pattern=pattern*dim+firstEqual;
       }
-      return true;
-   } 
-   else  if(f.dimension()==4) {
-      LABEL l[] = {0, 1, 2, 3};
-      VALUE v000000 = f(l);
-      l[3]=2; l[2]=1; l[1]=0;l[0]=0;
-      VALUE v000001 = f(l);
-      l[3]=2; l[2]=0; l[1]=1;l[0]=0;
-      VALUE v000010 = f(l);
-      l[3]=2; l[2]=0; l[1]=0;l[0]=1;
-      VALUE v000100 = f(l); 
-      l[3]=1; l[2]=0; l[1]=0;l[0]=0; //3-1
-      VALUE v000111 = f(l);
-      l[3]=0; l[2]=1; l[1]=2; l[0]=0;
-      VALUE v001000 = f(l);
-      l[3]=0; l[2]=1; l[1]=1; l[0]=0;
-      VALUE v001100 = f(l);
-      l[3]=0; l[2]=1; l[1]=0; l[0]=0; //3-1
-      VALUE v011001 = f(l);
-      l[3]=0; l[2]=0; l[1]=0; l[0]=1; //3-1
-      VALUE v110100 = f(l); 
-      l[3]=0; l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111111 = f(l);
-      l[3]=1; l[2]=1; l[1]=0; l[0]=0;
-      VALUE v100001 = f(l); 
-      l[3]=1; l[2]=0; l[1]=1; l[0]=0;
-      VALUE v010010 = f(l); 
-      l[3]=0; l[2]=0; l[1]=1; l[0]=2;
-      VALUE v100000 = f(l); 
-      l[3]=0; l[2]=1; l[1]=0; l[0]=2;
-      VALUE v010000 = f(l);
-      l[3]=0; l[2]=0; l[1]=1; l[0]=0; //3-1
-      VALUE v101010 = f(l); 
-
-
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) { 
-               for(l[3]=0;l[3]<f.shape(3);++l[3]) {
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v000001) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v000010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000100) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v000111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001100) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v010000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v011001) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v110100) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]==l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v100001) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100000) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v101010) ) {std::cout<<"1"; return false;}
-               }
-            }
-         }
+      const VALUE value=f(shapeWalker.coordinateTuple().begin());
+      if(valueOfPattern.insert(std::make_pair(pattern, value)).first->second!=value) {
+         return false;
       }
-      return true;
-   }
-   else{
-      return false;
    }
+   return true;
 }
 
 template<class FUNCTION, class VALUE, class INDEX, class LABEL>
-- 
2.43.0


From d16ca2ee6010fc109efbda6d016dcc148abad287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 007/173] fix: truncated difference forms ignored the
 truncation for small distances, wide shapes and negative weights

---
 .../functions/function_properties_base.hxx    | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 33fcd1f..22a07a0 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -304,15 +304,23 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedSquaredDifference() cons
       //get possible weight
       VALUE weight=f(c);
       //get possible truncation (compute the biggest possible distance => value is the truncation value)
-      c[0]=f.shape(0)-static_cast<LABEL>(1);
-      VALUE truncated=f(c);
+      if(f.shape(0)<f.shape(1)) {
+         c[0]=0;
+         c[1]=f.shape(1)-static_cast<LABEL>(1);
+      }
+      else {
+         c[0]=f.shape(0)-static_cast<LABEL>(1);
+      }
+      const VALUE truncated=f(c);
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
             d*=d;
             const VALUE fval=f(c);
             const VALUE compare=d*weight;
-            if( isNumericEqual(fval, compare  )==false && ((isNumericEqual(fval, truncated) && truncated<compare)==false)) {
+            // with a negative weight, truncation bounds the value from below
+            const bool isTruncated= weight<static_cast<VALUE>(0) ? truncated>compare : truncated<compare;
+            if( isNumericEqual(fval, isTruncated ? truncated : compare)==false) {
                return false;
             }
          } 
@@ -353,14 +361,22 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedAbsoluteDifference() con
       //get possible weight
       VALUE weight=f(c);
       //get possible truncation (compute the biggest possible distance => value is the truncation value)
-      c[0]=f.shape(0)-static_cast<LABEL>(1);
-      VALUE truncated=f(c);
+      if(f.shape(0)<f.shape(1)) {
+         c[0]=0;
+         c[1]=f.shape(1)-static_cast<LABEL>(1);
+      }
+      else {
+         c[0]=f.shape(0)-static_cast<LABEL>(1);
+      }
+      const VALUE truncated=f(c);
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
             const VALUE fval=f(c);
             const VALUE compare=d*weight;
-            if( isNumericEqual(fval, compare  )==false && ((isNumericEqual(fval, truncated) && truncated<compare)==false)) {
+            // with a negative weight, truncation bounds the value from below
+            const bool isTruncated= weight<static_cast<VALUE>(0) ? truncated>compare : truncated<compare;
+            if( isNumericEqual(fval, isTruncated ? truncated : compare)==false) {
                return false;
             }
          } 
-- 
2.43.0


From 1a3f0968e0324a725804f74f0b65dcc517010486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 008/173] fix: minimum and maximum of a Potts function with one
 label per variable included the unused value

---
 include/opengm/functions/potts.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/opengm/functions/potts.hxx b/include/opengm/functions/potts.hxx
index c182463..095bb0c 100644
--- a/include/opengm/functions/potts.hxx
+++ b/include/opengm/functions/potts.hxx
@@ -254,6 +254,9 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::min() const
 {
+   if(size() == 1) { // there are no unequal labels
+      return valueEqual_;
+   }
    return valueEqual_<valueNotEqual_ ? valueEqual_ :valueNotEqual_;
 }
 
@@ -261,6 +264,9 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::max() const
 {
+   if(size() == 1) { // there are no unequal labels
+      return valueEqual_;
+   }
    return valueNotEqual_>valueEqual_ ? valueNotEqual_ :valueEqual_;
 }
 
@@ -292,6 +298,9 @@ template<class T, class I, class L>
 inline MinMaxFunctor<typename PottsFunction<T, I, L>::ValueType>
 PottsFunction<T, I, L>::minMax() const
 {
+   if(size() == 1) { // there are no unequal labels
+      return MinMaxFunctor<T>(valueEqual_, valueEqual_);
+   }
    if(valueEqual_<valueNotEqual_) {
       return MinMaxFunctor<T>(valueEqual_, valueNotEqual_);
    }
-- 
2.43.0


From 6d7f1f5ae3306dc23d0661bbf1f1ac4ccd2d7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 009/173] fix: deserialization of LWeightedSumOfFunctions
 discarded everything it read

---
 .../opengm/functions/learnable/lweightedsum_of_functions.hxx   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
index 62314f4..9debad5 100644
--- a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
+++ b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
@@ -257,6 +257,9 @@ FunctionSerialization<opengm::functions::learnable::LWeightedSumOfFunctions<T, I
          ++valueInIterator;
       }
    }   
+   dst.shape_ = shape;
+   dst.weightIDs_ = parameterIDs;
+   dst.feat_ = feat;
 }
 
 } // namespace opengm
-- 
2.43.0


From 33220f999f1bfa2adea9cd6dc7535b205e8968d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 010/173] fix: serialization of DynamicSingleSiteFunction did
 not write its size

---
 include/opengm/functions/singlesitefunction.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index bdd4a8f..e1ceaae 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -346,6 +346,7 @@ public:
 
    template<class INDEX_OUTPUT_ITERATOR, class VALUE_OUTPUT_ITERATOR >
       static void serialize(const  DynamicSingleSiteFunction<T>  & f, INDEX_OUTPUT_ITERATOR ii, VALUE_OUTPUT_ITERATOR vi){
+      *ii=f.size();
       for(size_t i=0;i<f.size();++i){
          size_t c[]={i};
          *vi=f(c);
-- 
2.43.0


From 0f6c090467083308de356403f0644c9abe998659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 011/173] fix: A* added the bound of a higher-order factor to
 the wrong variable or value once its first variable was fixed

---
 include/opengm/inference/astar.hxx | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index d1a19e6..ac62e7c 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -453,6 +453,9 @@ namespace opengm {
                if(MVars.size()<2 || isTreeFactor_[f]){
                   const ViewFixVariablesFunction<GM> func(gm_[f], fixedVars);
                   mgm.addFactor(mgm.addFunction(func),MVars.begin(), MVars.end());
+               }else if(fixVariable[optimizedFactor_[f].variableIndex(0)]){
+                  // the variable that the bound depends on is fixed already
+                  GM::OperatorType::op(optimizedFactor_[f](fixVariableLabel[optimizedFactor_[f].variableIndex(0)]),constant);
                }else{
                   std::vector<IndexType> variablesIndices(optimizedFactor_[f].numberOfVariables());
                   for(size_t i=0; i<variablesIndices.size(); ++i)
@@ -613,12 +616,21 @@ namespace opengm {
             std::vector<size_t> state(nvar);
             for(size_t j=0; j<nvar; ++j) {
                if(nodeLabel[f.variableIndex(j)]<0) {
-                  state[j] = nodeLabel[f.variableIndex(j)];
                   covered = false;
                }
+               else{
+                  state[j] = nodeLabel[f.variableIndex(j)];
+               }
+            }
+            if(covered) {
+               nodeEnergy[f.variableIndex(0)].resize(1);
+               OperatorType::op(f(state.begin()), nodeEnergy[f.variableIndex(0)][0]);
+            }
+            else if(nodeLabel[f.variableIndex(0)]>=0) {
+               nodeEnergy[f.variableIndex(0)].resize(1);
+               LabelType coordinates[]={static_cast<LabelType>(state[0])};
+               OperatorType::op(optimizedFactor_[i](coordinates), nodeEnergy[f.variableIndex(0)][0]);
             }
-            if(covered)
-               nodeEnergy[f.variableIndex(0)][0] = f(state.begin());
             else{
                for(size_t j=0;j<numStates_[f.variableIndex(0)];++j) {
                   //nodeEnergy[f.variableIndex(0)][j] = operation(optimizedFactor_[i](j), nodeEnergy[f.variableIndex(0)][j]);
-- 
2.43.0


From 28e4240779221cacc87c36ad7f3db213328d1def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 012/173] fix: dynamic programming skipped a variable for every
 root given, leaving components unvisited

---
 include/opengm/inference/dynamicprogramming.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index 436c36e..7247161 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -117,11 +117,13 @@ namespace opengm {
         nodeList.push_back(para_.roots_[rootCounter]);
         ++rootCounter;
       }
-      else if(nodeOrder_[varCount]==std::numeric_limits<std::size_t>::max()){
-        nodeOrder_[varCount] = orderCount++;
-        nodeList.push_back(varCount);
+      else{
+        if(nodeOrder_[varCount]==std::numeric_limits<std::size_t>::max()){
+          nodeOrder_[varCount] = orderCount++;
+          nodeList.push_back(varCount);
+        }
+        ++varCount;
       }
-      ++varCount;
       while(nodeList.size()>0){
         size_t node = nodeList.back();
         nodeList.pop_back();
-- 
2.43.0


From 1a782433a741a10892dc84694a7644ba20e2f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 013/173] fix: A* with the fast heuristic valued complete
 labellings by a bound of their higher-order factors

---
 include/opengm/inference/astar.hxx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index ac62e7c..043169f 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -612,20 +612,30 @@ namespace opengm {
             }
          }
          if(nvar>2) {
-            bool covered = true;
+            size_t numberOfFreeVariables = 0;
+            size_t freePosition = 0;
             std::vector<size_t> state(nvar);
             for(size_t j=0; j<nvar; ++j) {
                if(nodeLabel[f.variableIndex(j)]<0) {
-                  covered = false;
+                  ++numberOfFreeVariables;
+                  freePosition = j;
                }
                else{
                   state[j] = nodeLabel[f.variableIndex(j)];
                }
             }
-            if(covered) {
+            if(numberOfFreeVariables == 0) {
                nodeEnergy[f.variableIndex(0)].resize(1);
                OperatorType::op(f(state.begin()), nodeEnergy[f.variableIndex(0)][0]);
             }
+            else if(numberOfFreeVariables == 1) {
+               // the value is known exactly for each label of the free variable
+               const size_t freeVariable = f.variableIndex(freePosition);
+               for(size_t j=0;j<numStates_[freeVariable];++j) {
+                  state[freePosition] = j;
+                  OperatorType::op(f(state.begin()), nodeEnergy[freeVariable][j]);
+               }
+            }
             else if(nodeLabel[f.variableIndex(0)]>=0) {
                nodeEnergy[f.variableIndex(0)].resize(1);
                LabelType coordinates[]={static_cast<LabelType>(state[0])};
-- 
2.43.0


From ea0b407d20257659bfa356f4ba3a2c2fc9c81f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 014/173] fix: resetting message passing kept the old messages

---
 .../opengm/inference/messagepassing/messagepassing_buffer.hxx  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/messagepassing/messagepassing_buffer.hxx b/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
index 2bfeb7c..d699959 100644
--- a/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
@@ -112,6 +112,9 @@ namespace opengm {
       else {
          buffer1_.resize(&shape, &shape+1, constant);
          buffer2_.resize(&shape, &shape+1, constant);
+         // resize keeps values that are already there
+         buffer1_ = constant;
+         buffer2_ = constant;
       }
       flag_ = false;
    }
-- 
2.43.0


From 25a129e46baa4d01eb1ee4838fb548ab6c8887ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:57 +0000
Subject: [PATCH 015/173] fix: graph cut mis-solved third-order factors

The auxiliary construction used variable 1 twice, connected the wrong nodes and
shared one auxiliary node between factors whose best sides differ.
---
 include/opengm/inference/graphcut.hxx | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 314babd..d617ae5 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -253,7 +253,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
    else if(numberOfVariables == 3) {
       const size_t var0 = factor.variableIndex(0);
       const size_t var1 = factor.variableIndex(1);
-      const size_t var2 = factor.variableIndex(1);
+      const size_t var2 = factor.variableIndex(2);
       OPENGM_ASSERT(var0 < numVariables_);
       OPENGM_ASSERT(var1 < numVariables_);
       OPENGM_ASSERT(var2 < numVariables_);
@@ -279,7 +279,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
             if(G-E>=0) addEdgeCapacity(0, var1+2, G - E);
             else       addEdgeCapacity(var1+2, 1, E - G);
             if(D-C>=0) addEdgeCapacity(0, var2+2, D - C);
-            else       addEdgeCapacity(var2+2, 0, C - D);
+            else       addEdgeCapacity(var2+2, 1, C - D);
 
             addEdgeCapacity(var1+2, var2+2, B + C - A - D);
             addEdgeCapacity(var2+2, var0+2, B + E - A - F);
@@ -288,7 +288,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
             addEdgeCapacity(var0 + 2, id + 2, P);
             addEdgeCapacity(var1 + 2, id + 2, P);
             addEdgeCapacity(var2 + 2, id + 2, P);
-            addEdgeCapacity(id, 1, P);
+            addEdgeCapacity(id + 2, 1, P);
          }
          else {
             if(C-G>=0) addEdgeCapacity(var0+2, 1, C - G);
@@ -347,16 +347,9 @@ GraphCut<GM, ACC, MINSTCUT>::tripleId
 (
    std::vector<size_t>& triple
 ) {
-   // search for triple in list
-   std::list<std::vector<size_t> >::iterator it;
-   size_t counter = numVariables_;
-   for(it = tripleList.begin(); it != tripleList.end(); it++) {
-      if(triple[0] == (*it)[0] && triple[1] == (*it)[1] && triple[2] == (*it)[2]) {
-         return counter;
-      }
-      numVariables_++;
-   }
-   // add triple to list
+   // every third order factor has an auxiliary node of its own: the best side of
+   // the node depends on the factor, even for factors over the same variables
+   const size_t counter = numVariables_ + tripleList.size();
    tripleList.push_back(triple);
    OPENGM_ASSERT(counter - numVariables_ < numFacDim_[3]);
    return counter;
-- 
2.43.0


From 73cd839292e344955e6dce45160555b86e3588e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 016/173] fix: ICM with factor moves stopped before every
 factor was locally optimal

---
 include/opengm/inference/icm.hxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index 7b70ac9..a9fa862 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -248,8 +248,15 @@ InferenceTermination ICM<GM,ACC>::infer
                   for(v=0;v<gm_[f].numberOfVariables();++v) {
                      const size_t varIndex=gm_[f].variableIndex(v);
                      if(stateBuffer[v]!=movemaker_.state(varIndex)) {
+                        // the best labels of a factor depend on all variables adjacent to it
                         for(ff=0;ff<gm_.numberOfFactors(varIndex);++ff) {
-                           isLocalOptimal[gm_.factorOfVariable(varIndex,ff)]=false;
+                           const size_t neighbor=gm_.factorOfVariable(varIndex,ff);
+                           for(size_t nv=0;nv<gm_[neighbor].numberOfVariables();++nv) {
+                              const size_t neighborVar=gm_[neighbor].variableIndex(nv);
+                              for(size_t nf=0;nf<gm_.numberOfFactors(neighborVar);++nf) {
+                                 isLocalOptimal[gm_.factorOfVariable(neighborVar,nf)]=false;
+                              }
+                           }
                         }
                      }
                   }
-- 
2.43.0


From e044f55db69ac1e0c2bb433bf33bf7bd413d7f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 017/173] fix: move maker restored the wrong variables after a
 refused move

---
 include/opengm/inference/movemaker.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 468115c..5a8740e 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -497,7 +497,7 @@ Movemaker<GM>::moveOptimallyWithAllLabelsChanging
       if(gm_.space().numberOfLabels(variableIndices[j]) == 1) {
          // restore stateBuffer_
          for(size_t k=0; k<j; ++k) {
-            stateBuffer_[k] = state_[k];
+            stateBuffer_[variableIndices[k]] = state_[variableIndices[k]];
          }
          return energy_;
       }
-- 
2.43.0


From 5b14490e3edcad8395f111309adff040991a6197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 018/173] fix: calling LazyFlipper::infer() again did not
 search all subgraphs

---
 include/opengm/inference/lazyflipper.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/opengm/inference/lazyflipper.hxx b/include/opengm/inference/lazyflipper.hxx
index 53689ab..710e670 100644
--- a/include/opengm/inference/lazyflipper.hxx
+++ b/include/opengm/inference/lazyflipper.hxx
@@ -806,6 +806,10 @@ LazyFlipper<GM, ACC>::inferBinaryLabel(
 {
    bool continueInf = true;
    size_t length = 1;
+   // start with an empty forest, infer() may have been called before
+   subgraphForest_ = SubgraphForest();
+   deactivateAllVariables(0);
+   deactivateAllVariables(1);
    //const ValueType bound = this->bound();
    //visitor.begin(*this, movemaker_.value(), bound, length, subgraphForest_.size());
    visitor.begin(*this);
@@ -893,6 +897,10 @@ LazyFlipper<GM, ACC>::inferMultiLabel(
 {
    bool continueInf = true;
    size_t length = 1;
+   // start with an empty forest, infer() may have been called before
+   subgraphForest_ = SubgraphForest();
+   deactivateAllVariables(0);
+   deactivateAllVariables(1);
    //const ValueType bound = this->bound();
    //visitor.begin(*this, movemaker_.value(), bound, length, subgraphForest_.size());
    visitor.begin(*this);
-- 
2.43.0


From 52dbd4aee1234a672977a8fbab2f719d6a5fd2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:59 +0000
Subject: [PATCH 019/173] fix: alpha-expansion and alpha-beta-swap stopped
 before reaching a local optimum

Moves that do not improve the labeling were carried out without restarting the
count of unsuccessful moves; the swap never restarted it at all.
---
 include/opengm/inference/alphabetaswap.hxx  | 11 +++++++----
 include/opengm/inference/alphaexpansion.hxx | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 9a21537..9e6268b 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -279,6 +279,7 @@ AlphaBetaSwap<GM, INF>::infer
       inf.infer();
       inf.arg(state);
       OPENGM_ASSERT(state.size() == counter);
+      const std::vector<LabelType> previousLabel(label_);
       for (size_t var = 0; var < numberOfVariables; ++var) {
          if (label_[var] == alpha_ || label_[var] == beta_) {
             if (state[variable2Node[var]] == 0)
@@ -290,15 +291,17 @@ AlphaBetaSwap<GM, INF>::infer
          }
       }
       ValueType energy2 = gm_.evaluate(label_);
-      if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
-         exitInf=true;
-      }
-      OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
       if (AccumulationType::bop(energy2, energy)) {
          energy = energy2;
+         countUnchanged = 0;
       } else {
+         // only moves that improve the labeling are accepted
+         label_ = previousLabel;
          ++countUnchanged;
       }
+      if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
+         exitInf=true;
+      }
    }
    visitor.end(*this);
    return NORMAL;
diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d5b21e3..26d063d 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -326,6 +326,7 @@ AlphaExpansion<GM, INF>::infer
             ++countAlphas;
          }
       }
+      const std::vector<LabelType> previousLabel(label_);
       if(countAlphas < gm_.numberOfVariables()) {
          for (size_t k=0 ; k<gm_.numberOfFactors(); ++k) {
             const  FactorType& factor = gm_[k];
@@ -379,18 +380,20 @@ AlphaExpansion<GM, INF>::infer
       }
       OPENGM_ASSERT(gm_.numberOfVariables() == label_.size());
       ValueType energy2 = gm_.evaluate(label_);
-      //visitor(*this,energy2,energy,alpha_);
-      if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
-         exitInf=true;
-      }
       // OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
       if(AccumulationType::bop(energy2, energy)) {
          energy=energy2;
          countUnchanged = 0;
       }
       else{
+         // only moves that improve the labeling are accepted
+         label_ = previousLabel;
          ++countUnchanged;
       }
+      //visitor(*this,energy2,energy,alpha_);
+      if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
+         exitInf=true;
+      }
       incrementAlpha();
       OPENGM_ASSERT(alpha_ < maxState_);
    }
-- 
2.43.0


From 402a378217b7eb4d22c2f2a9f482d9720a59f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:59 +0000
Subject: [PATCH 020/173] fix: locally optimal start of alpha-expansion mixed
 up factors and variables

---
 include/opengm/inference/alphaexpansion.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 26d063d..f505596 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -66,7 +66,7 @@ public:
             randSeedOrder_(p.randSeedOrder_),
             randSeedLabel_(p.randSeedLabel_),
             labelOrder_(p.labelOrder_),
-            label_(p.labelOrder_)
+            label_(p.label_)
         {}
 
         InferenceParameter parameter_;
@@ -467,16 +467,16 @@ AlphaExpansion<GM, INF>::setInitialLabel
 template<class GM, class INF>
 inline void
 AlphaExpansion<GM, INF>::setInitialLabelLocalOptimal() {
-   label_.resize(gm_.numberOfVariables(), 0);
+   label_.assign(gm_.numberOfVariables(), 0);
    std::vector<size_t> accVec;
    for(size_t i=0; i<gm_.numberOfFactors();++i) {
       if(gm_[i].numberOfVariables()==1) {
          std::vector<size_t> state(1, 0);
          ValueType value = gm_[i](state.begin());
-         for(state[0]=1; state[0]<gm_.numberOfLabels(i); ++state[0]) {
+         for(state[0]=1; state[0]<gm_[i].numberOfLabels(0); ++state[0]) {
             if(AccumulationType::bop(gm_[i](state.begin()), value)) {
                value = gm_[i](state.begin());
-               label_[i] = state[0];
+               label_[gm_[i].variableIndex(0)] = state[0];
             }
          }
       }
-- 
2.43.0


From 1057b3df8568695eac1749f0e54afb91753144b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:59 +0000
Subject: [PATCH 021/173] fix: QPBO::partialOptimality did not compile

---
 include/opengm/inference/qpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index b31571c..d92e209 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -180,7 +180,7 @@ QPBO<GM,MIN_ST_CUT>::partialOptimality
       } else
          optVec[j] = false;
 
-   return opt/gm_.numerOfVariables();
+   return opt/gm_.numberOfVariables();
 }
 
 template<class GM,class MIN_ST_CUT>
-- 
2.43.0


From e3aac585fe8ea684fe6e1b42c6c2d3b95bb39849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 022/173] fix: alpha-expansion ignored the cost of pairs that
 keep different labels

---
 include/opengm/inference/alphaexpansion.hxx | 33 +++++++--------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index f505596..105bfb1 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -305,20 +305,8 @@ AlphaExpansion<GM, INF>::infer
    LabelType vecXA[2];
    LabelType vecXX[2];
    while(it++ < parameter_.maxNumberOfSteps_ && countUnchanged < maxState_ && exitInf == false) {
-      size_t numberOfAuxiliaryNodes = 0;
-      for(size_t k=0 ; k<gm_.numberOfFactors(); ++k) {
-         const FactorType& factor = gm_[k];
-         if(factor.numberOfVariables() == 2) {
-            size_t var1 = factor.variableIndex(0);
-            size_t var2 = factor.variableIndex(1);
-            if(label_[var1] != label_[var2] && label_[var1] != alpha_ && label_[var2] != alpha_ ) {
-               ++numberOfAuxiliaryNodes;
-            }
-         }
-      }
       std::vector<size_t> numFacDim(4, 0);
-      INF inf(numberOfVariables + numberOfAuxiliaryNodes, numFacDim, parameter_.parameter_);
-      size_t varX = numberOfVariables;
+      INF inf(numberOfVariables, numFacDim, parameter_.parameter_);
       size_t countAlphas = 0;
       for (size_t k=0 ; k<gm_.numberOfVariables(); ++k) {
          if (label_[k] == alpha_ ) {
@@ -355,22 +343,23 @@ AlphaExpansion<GM, INF>::infer
                else if(label_[var2]==alpha_) {
                   addUnary(inf, var1, factor(vecAA), factor(vecXA));
                }
-               else if(label_[var1]==label_[var2]) {
-                  addPairwise(inf, var1, var2, factor(vecAA), factor(vecAX), factor(vecXA), factor(vecXX));
-               }
                else{
-                  OPENGM_ASSERT(varX < numberOfVariables + numberOfAuxiliaryNodes);
-                  addPairwise(inf, var1, varX, 0, factor(vecAX), 0, 0);
-                  addPairwise(inf, var2, varX, 0, factor(vecXA), 0, 0);
-                  addUnary(inf, varX, factor(vecAA), factor(vecXX));
-                  ++varX;
+                  const ValueType vAA = factor(vecAA);
+                  const ValueType vAX = factor(vecAX);
+                  const ValueType vXA = factor(vecXA);
+                  ValueType vXX = factor(vecXX);
+                  // terms that do not admit the move are truncated
+                  if(AccumulationType::bop(static_cast<ValueType>(vAX + vXA - vAA), vXX)) {
+                     vXX = vAX + vXA - vAA;
+                  }
+                  addPairwise(inf, var1, var2, vAA, vAX, vXA, vXX);
                }
             }
          }
          std::vector<LabelType> state;
          inf.infer();
          inf.arg(state);
-         OPENGM_ASSERT(state.size() == numberOfVariables + numberOfAuxiliaryNodes);
+         OPENGM_ASSERT(state.size() == numberOfVariables);
          for(size_t var=0; var<numberOfVariables ; ++var) {
             if (label_[var] != alpha_ && state[var]==0) {
                label_[var] = alpha_;
-- 
2.43.0


From f137f3d3b473353a51a9887a182200a0ec8a4c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 023/173] fix: QPBO::value() was always infinite, arg() did not
 override the base class

---
 include/opengm/inference/qpbo.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index d92e209..7727446 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -49,7 +49,7 @@ public:
    InferenceTermination infer();
    template<class VISITOR>
       InferenceTermination infer(VISITOR &);
-   InferenceTermination arg(std::vector<LabelType>&, const size_t& = 1) const;
+   InferenceTermination arg(std::vector<LabelType>&, const size_t = 1) const;
    double partialOptimality(std::vector<bool>&) const;
 
 private:
@@ -144,7 +144,7 @@ inline InferenceTermination
 QPBO<GM,MIN_ST_CUT>::arg
 (
    std::vector<LabelType>& arg,
-   const size_t& n
+   const size_t n
    ) const
 {
    if(n > 1) {
-- 
2.43.0


From c861c489ecfafe30e4dd0320ab853d8644d34531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 024/173] fix: QPBO built flow networks with negative
 capacities for negative pairwise values

---
 include/opengm/inference/qpbo.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index 7727446..90938ad 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -304,6 +304,16 @@ QPBO<GM,MIN_ST_CUT>::addPairwiseFactorType
       addEdgeCapacity(nx_j,  x_i, 0.5*c_x_i_x_j);
    }
 
+   // edge capacities must not be negative
+   delta = std::min(delta_c_nx_j, delta_c_x_j);
+   delta_c_nx_j -= delta;
+   delta_c_x_j  -= delta;
+   constTerm_   += delta;
+   delta = std::min(delta_c_nx_i, delta_c_x_i);
+   delta_c_nx_i -= delta;
+   delta_c_x_i  -= delta;
+   constTerm_   += delta;
+
    // for every non-zero c_[n]x_{i,j} add two edges to the flow network
 
    if (delta_c_nx_j != 0) {
-- 
2.43.0


From 3f54e786550badce0ac9fe9f5649a52a60dd336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 025/173] fix: isValid read beyond the lists of a decomposition
 built for another model

---
 .../decomposition/graphicalmodeldecomposition.hxx             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
index 50942b9..09f6ec8 100644
--- a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
+++ b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
@@ -352,10 +352,10 @@ bool GraphicalModelDecomposition::isValid(const GM& gm) const
 
    bool ret = true; 
    if(subVariableLists_.size() != gm.numberOfVariables()) { 
-      ret = false; 
+      return false; 
    }
    if(subFactorLists_.size() != gm.numberOfFactors()) { 
-      ret = false; 
+      return false; 
    }
    for(size_t i=0; i<gm.numberOfVariables(); ++i) {
       if(subVariableLists_[i].size()==0) {
-- 
2.43.0


From 06f34f29f597c03af5d4a1ce67d06cca98ccf5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 026/173] fix: tentacle elimination indexed an array of factors
 by variables

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 95b0b7c..9dcad43 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -527,7 +527,7 @@ namespace opengm {
       }
       
       //SETUP LEAFS 
-      std::vector<bool>  pushed2Leafs(gm_.numberOfFactors(), false);
+      std::vector<bool>  pushed2Leafs(gm_.numberOfVariables(), false);
       for(IndexType var=0; var<gm_.numberOfVariables(); ++var){
          if(variableDegree[var] <= 1 && !fixVariable_[var]){
             leafs.push_back(var);
-- 
2.43.0


From d3a6829f4f6ecdce33ccf5319b0e1eee035e53ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 027/173] fix: unlocking a manipulator kept the eliminated
 tentacles

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 9dcad43..26c0319 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -186,6 +186,11 @@ namespace opengm {
       validSubModels_=false;
       validModel_=false;
       submodels_.clear();
+      tentacleRoots_.clear();
+      tentacleFunctions_.clear();
+      tentacleLabelCandidates_.clear();
+      tentacleVars_.clear();
+      tentacleFactor_.assign(gm_.numberOfFactors(),false);
       freeAllVariables();
    }
 
-- 
2.43.0


From 18325efbc57bcb8b611b42b6d180a4095d48e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 028/173] fix: building a modified model without locking first
 read an empty vector

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 26c0319..4b079a4 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -138,7 +138,8 @@ namespace opengm {
         mode_(mode),
         validModel_(false), 
         validSubModels_(false),
-        var2subProblem_(std::vector<IndexType>(gm.numberOfVariables(),0))
+        var2subProblem_(std::vector<IndexType>(gm.numberOfVariables(),0)),
+        tentacleFactor_(std::vector<bool>(gm.numberOfFactors(),false))
    {
       return;
    }
-- 
2.43.0


From edca58d86fe367786a31f00dc77fb7255f81f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 029/173] fix: operations on scalar functions resized the
 result to an array without entries

---
 include/opengm/functions/operations/operator.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/opengm/functions/operations/operator.hxx b/include/opengm/functions/operations/operator.hxx
index 56cda43..60e0107 100644
--- a/include/opengm/functions/operations/operator.hxx
+++ b/include/opengm/functions/operations/operator.hxx
@@ -182,7 +182,6 @@ void BinaryOperationImpl<A, B, C, OP>::op
    }
    else if(dimA == 0 && dimB == 0) {
       const size_t scalarIndex=0;
-      c.resize(&scalarIndex, &scalarIndex+1);
       c(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
    }
    else if(dimA == 0) {
@@ -252,7 +251,6 @@ void BinaryOperationInplaceImpl<A, B, OP>::op
       }
       else {
          const size_t scalarIndex=0;
-         a.resize(&scalarIndex, &scalarIndex+1);
          a(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
          via.assign(viaNew.begin(),viaNew.end());
       }
@@ -299,7 +297,7 @@ void UnaryOperationImpl<A, B, OP>::op
    }
    else {
       const size_t scalarIndex=0;
-      b.resize(&scalarIndex, &scalarIndex+1);
+      b.resize(&scalarIndex, &scalarIndex);
       b(&scalarIndex) = op(a(&scalarIndex));
    }
 }
-- 
2.43.0


From 935ed7c9160445c6ece665cbe0e1e3580f56208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 030/173] fix: accumulating a scalar function over some
 variables replaced its value by zero

---
 include/opengm/functions/operations/accumulator.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/opengm/functions/operations/accumulator.hxx b/include/opengm/functions/operations/accumulator.hxx
index 2e12443..3bcb31b 100644
--- a/include/opengm/functions/operations/accumulator.hxx
+++ b/include/opengm/functions/operations/accumulator.hxx
@@ -198,8 +198,7 @@ void AccumulateSomeImpl<A, B, ACC>::op
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
       size_t indexSequenceToScalar[] = {0};
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
+      acc(a(indexSequenceToScalar));
       size_t shapeToScalarArray[] = {0};
       b.resize(shapeToScalarArray, shapeToScalarArray);
       b(indexSequenceToScalar) = acc.value();
@@ -290,10 +289,9 @@ void AccumulateSomeInplaceImpl<A, ACC>::op
    }
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
-      a.assign();
-      a(0) = acc.value();
+      size_t indexSequenceToScalar[] = {0};
+      acc(a(indexSequenceToScalar));
+      a(indexSequenceToScalar) = acc.value();
    }
    OPENGM_ASSERT(a.dimension() == viA.size());
    OPENGM_ASSERT(a.dimension() != 0 || (a.dimension() == 0 && a.size() == 1));
-- 
2.43.0


From fe078342728f28c7351adcf5a644d561d6f9438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 031/173] fix: resizing an empty Marray to a scalar ignored the
 initial value

---
 include/opengm/datastructures/marray/marray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0c91d2f..becb2dd 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -3894,7 +3894,7 @@ Marray<T, A>::resize
        *this=Marray<T,A>((*this).operator()(0));
        }
        else{
-          *this=Marray<T,A>(T());
+          *this=Marray<T,A>(value);
        }
 
     }
-- 
2.43.0


From f891ac2770ed5cdb10ed7c414af5830855d63c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 032/173] fix: Accumulation::neutral returned the length of the
 state

---
 include/opengm/utilities/accumulation.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/accumulation.hxx b/include/opengm/utilities/accumulation.hxx
index 61039aa..f1316c8 100644
--- a/include/opengm/utilities/accumulation.hxx
+++ b/include/opengm/utilities/accumulation.hxx
@@ -58,7 +58,7 @@ template<class Value, class State, class Accumulator>
 inline typename Accumulation<Value, State, Accumulator>::ValueType
 Accumulation<Value, State, Accumulator>::neutral() const
 {
-   return state_.size();
+   return Accumulator::template neutral<ValueType>();
 }
    
 template<class Value, class State, class Accumulator>
-- 
2.43.0


From 4f5ff6966b04e5aae56bbde3e4809af289642a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 033/173] fix: Integrator::iop left its argument unchanged

---
 include/opengm/operations/integrator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/operations/integrator.hxx b/include/opengm/operations/integrator.hxx
index aa2305f..1b7be65 100644
--- a/include/opengm/operations/integrator.hxx
+++ b/include/opengm/operations/integrator.hxx
@@ -44,7 +44,7 @@ struct Integrator
    /// inverse operation (in-place)
    template<class T1, class T2>
       static void iop(const T1& in1,  T2& out)
-         { out - in1; }
+         { out -= in1; }
 
    /// inverse operation (call by reference)
    template<class T1,class T2,class T3>
-- 
2.43.0


From 0991bcccfb66c98667cd5cba2ac00e2416e764e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 034/173] fix: the three argument log-sum-exp ignored its
 second operand

---
 include/opengm/operations/logsumexp.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/operations/logsumexp.hxx b/include/opengm/operations/logsumexp.hxx
index 87f4d70..d414753 100644
--- a/include/opengm/operations/logsumexp.hxx
+++ b/include/opengm/operations/logsumexp.hxx
@@ -47,8 +47,8 @@ struct Logsumexp
       static void op(const T1 in1, const T2 in2, T3& out)
 //         { out = log(exp(in1) + exp(in2)); }
    {
-      T2 theMax = std::max(in1, out);
-      T2 theMin = std::min(in1, out);
+      const T3 theMax = std::max(static_cast<T3>(in1), static_cast<T3>(in2));
+      const T3 theMin = std::min(static_cast<T3>(in1), static_cast<T3>(in2));
       out = theMax + log(1 + exp(theMin - theMax));  // numerically better
    }
 
-- 
2.43.0


From af9eaa35c75e68d7270a5ba340acfcbda393f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:04 +0000
Subject: [PATCH 035/173] fix: minimum and maximum had 0 as neutral element for
 integer value types

---
 include/opengm/operations/maximizer.hxx | 8 ++++----
 include/opengm/operations/minimizer.hxx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/operations/maximizer.hxx b/include/opengm/operations/maximizer.hxx
index 7eb545d..bd0753a 100644
--- a/include/opengm/operations/maximizer.hxx
+++ b/include/opengm/operations/maximizer.hxx
@@ -12,22 +12,22 @@ struct Maximizer
    /// neutral element (with return)
    template<class T>
    static T neutral()
-      { return -std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
 
    /// neutral element (call by reference)
    template<class T>
    static void neutral(T& out)
-      { out = -std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
 
    /// inverse neutral element (with return)
    template<class T>
    static T ineutral()
-      { return std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// inverse neutral element (call by reference)
    template<class T>
    static void ineutral(T& out)
-      { out = std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// operation (in-place)
    template<class T1, class T2>
diff --git a/include/opengm/operations/minimizer.hxx b/include/opengm/operations/minimizer.hxx
index d8bd555..83e0c2b 100644
--- a/include/opengm/operations/minimizer.hxx
+++ b/include/opengm/operations/minimizer.hxx
@@ -14,20 +14,20 @@ struct Minimizer
    /// neutral element (with return)
    template<class T>
    static T neutral()
-      { return std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
    /// neutral element (call by reference)
    template<class T>
    static void neutral(T& out)
-      { out = std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// inverse neutral element (with return)
    template<class T>
    static T ineutral()
-      { return -std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
    /// inverse neutral element (call by reference)
    template<class T>
    static void ineutral(T& out)
-      { out = -std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
       
    /// operation (in-place)
    template<class T1, class T2>
-- 
2.43.0


From bde9515eb09ccb4bb79a623990a09a86fbb2cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:03 +0000
Subject: [PATCH 036/173] fix: ViewFixVariablesFunction mixed up variables when
 the fixed positions were not sorted

---
 include/opengm/functions/view_fix_variables_function.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/opengm/functions/view_fix_variables_function.hxx b/include/opengm/functions/view_fix_variables_function.hxx
index ddeda76..8e35157 100644
--- a/include/opengm/functions/view_fix_variables_function.hxx
+++ b/include/opengm/functions/view_fix_variables_function.hxx
@@ -2,6 +2,9 @@
 #ifndef OPENGM_VIEW_FIX_VARIABLES_FUNCTION_HXX
 #define OPENGM_VIEW_FIX_VARIABLES_FUNCTION_HXX
 
+#include <algorithm>
+#include <vector>
+
 #include "opengm/functions/function_properties_base.hxx"
 
 namespace opengm {
@@ -10,6 +13,8 @@ namespace opengm {
 template<class I, class L>
 struct PositionAndLabel {
    PositionAndLabel(const I = 0, const L = 0);
+   bool operator<(const PositionAndLabel<I, L>& other) const
+      { return position_ < other.position_; }
    I position_;
    L label_;
 };
@@ -81,6 +86,7 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
    size_(1),
    lookUp_(factor.numberOfVariables()-positionAndLabels.size())
 {
+   std::sort(positionAndLabels_.begin(), positionAndLabels_.end());
    if(opengm::NO_DEBUG==false) {
       for(size_t i=0; i<positionAndLabels_.size(); ++i) {
          OPENGM_ASSERT(positionAndLabels_[i].label_ < factor_->numberOfLabels(positionAndLabels_[i].position_));
@@ -116,6 +122,7 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
    size_(1),
    lookUp_(factor.numberOfVariables()-positionAndLabels.size())
 {
+   std::sort(positionAndLabels_.begin(), positionAndLabels_.end());
    if(!(opengm::NO_DEBUG)) {
       for(size_t i=0; i<positionAndLabels_.size(); ++i) {
          OPENGM_ASSERT(positionAndLabels_[i].label_ < factor_->numberOfLabels(positionAndLabels_[i].position_));
-- 
2.43.0


From b5f2c9b557492b3b080d318a4bca4dd4b76858ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:10 +0000
Subject: [PATCH 037/173] fix: GmLabelFactorLabelAccessor could not be compared
 with its own type

---
 include/opengm/utilities/shape_accessor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/shape_accessor.hxx b/include/opengm/utilities/shape_accessor.hxx
index 6d9b45e..c1f59a9 100644
--- a/include/opengm/utilities/shape_accessor.hxx
+++ b/include/opengm/utilities/shape_accessor.hxx
@@ -132,7 +132,7 @@ namespace opengm {
          { return gmLabelIter_[factor_->variableIndex(j)]; }
       const value_type operator[](const size_t j) const 
          { return gmLabelIter_[factor_->variableIndex(j)]; }
-      bool operator==(const FactorShapeAccessor<FACTOR> & other) const 
+      bool operator==(const GmLabelFactorLabelAccessor<FACTOR, GM_LABEL_ITER> & other) const 
       { return factor_ == other.factor_ && gmLabelIter_==other.gmLabelIter_; 
       }
    
-- 
2.43.0


From 4cdfe31873dcee861385c00410d91b807a5d144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 038/173] fix: dereferencing a const AccessorIterator returned
 a reference to a temporary

---
 include/opengm/utilities/accessor_iterator.hxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/opengm/utilities/accessor_iterator.hxx b/include/opengm/utilities/accessor_iterator.hxx
index a9bec89..032b477 100644
--- a/include/opengm/utilities/accessor_iterator.hxx
+++ b/include/opengm/utilities/accessor_iterator.hxx
@@ -75,6 +75,12 @@ public:
       >::type,
       value_type&
    >::type reference;
+   typedef typename meta::If
+   <
+      meta::IsFundamental<value_type>::value,
+      const value_type,
+      const value_type&
+   >::type const_reference;
    typedef size_t difference_type;
    typedef std::random_access_iterator_tag iterator_category;
 
@@ -96,9 +102,9 @@ public:
    pointer operator->();
    const value_type* operator->() const;
    reference operator*();
-   const value_type& operator*() const;
+   const_reference operator*() const;
    reference operator[](const size_t);
-   const value_type& operator[](const size_t) const;
+   const_reference operator[](const size_t) const;
 
    AccessorIterator<A, isConst>& operator++();
    AccessorIterator<A, isConst> operator++(int);
@@ -225,7 +231,7 @@ AccessorIterator<A, isConst>::operator->() const
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator*() const
 {
    OPENGM_ASSERT(index_ < accessor_.size());
@@ -241,7 +247,7 @@ AccessorIterator<A, isConst>::operator*()
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator[]
 (
    const size_t j
-- 
2.43.0


From 42ba514904432297c7e64cf6f169ce33a6985ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 039/173] fix: the non-const FactorVariablesAccessor returned
 numbers of labels instead of variable indices

---
 include/opengm/utilities/shape_accessor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/shape_accessor.hxx b/include/opengm/utilities/shape_accessor.hxx
index c1f59a9..de32af7 100644
--- a/include/opengm/utilities/shape_accessor.hxx
+++ b/include/opengm/utilities/shape_accessor.hxx
@@ -162,7 +162,7 @@ namespace opengm {
       IndexType size() const 
          { return factor_ == 0 ? 0 : factor_->numberOfVariables(); }
       reference operator[](const size_t j) 
-         { return factor_->numberOfLabels(j); }
+         { return factor_->variableIndex(j); }
       const value_type operator[](const size_t j) const 
          { return factor_->variableIndex(j); }
       bool operator==(const FactorVariablesAccessor<FACTOR> & other) const 
-- 
2.43.0


From 136250b023e76bbf1f2502561a3c9c12f234618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 040/173] fix: findInSortedSequence read in front of an empty
 sequence

---
 include/opengm/utilities/sorting.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/sorting.hxx b/include/opengm/utilities/sorting.hxx
index 22e6f1d..945eaf0 100644
--- a/include/opengm/utilities/sorting.hxx
+++ b/include/opengm/utilities/sorting.hxx
@@ -17,7 +17,7 @@ findInSortedSequence
    const TYPE_TO_FIND & toFind,
    INDEXTYPE & position
 ) {
-   if(toFind>static_cast<TYPE_TO_FIND>(sequenceBegin[sequenceSize-1]))
+   if(sequenceSize==0 || toFind>static_cast<TYPE_TO_FIND>(sequenceBegin[sequenceSize-1]))
       return false;
    for(INDEXTYPE p=0;p<sequenceSize;++p) {
       if(toFind<static_cast<TYPE_TO_FIND>(sequenceBegin[p]))
-- 
2.43.0


From e224d9c62e9e1e302e93746080e4e919f1a749fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 041/173] fix: a Tribool that is false compared different from
 false

---
 include/opengm/utilities/tribool.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/tribool.hxx b/include/opengm/utilities/tribool.hxx
index 30b4706..084fc62 100644
--- a/include/opengm/utilities/tribool.hxx
+++ b/include/opengm/utilities/tribool.hxx
@@ -126,7 +126,7 @@ namespace opengm {
    ) const
    {
       return (value_ != Tribool::True && a == true)
-         || (value_ != Tribool::True && a == false);
+         || (value_ != Tribool::False && a == false);
    }
 
    inline Tribool::operator bool() const
-- 
2.43.0


From 6724bdd5a1b6de20b77e2559ae2392d92c1ddf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 042/173] fix: SubShapeWalker walked over fixed coordinates
 whose indices were not sorted

---
 include/opengm/utilities/indexing.hxx | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/opengm/utilities/indexing.hxx b/include/opengm/utilities/indexing.hxx
index f85bc40..ca5f071 100644
--- a/include/opengm/utilities/indexing.hxx
+++ b/include/opengm/utilities/indexing.hxx
@@ -55,13 +55,11 @@ namespace opengm {
 
       /// increment coordinate in last - coordinate major order  (therefore the first coordinate is incremented first)
       inline SubShapeWalker & operator++() {
-         size_t counter = 0;
          for(size_t d = 0; d < dimension_; ++d) {
             bool atFixedValue = false;
-            for(size_t i = counter; i < fixedCoordinateIndex_.size(); ++i) {
+            for(size_t i = 0; i < fixedCoordinateIndex_.size(); ++i) {
                if(d == fixedCoordinateIndex_[i]) {
                   atFixedValue = true;
-                  ++counter;
                }
             }
             if(atFixedValue == false) {
@@ -91,14 +89,12 @@ namespace opengm {
       /// get the number of elements over which one wants to walk
       size_t subSize() {
          size_t result = 1;
-         size_t counter = 0;
          for(size_t d = 0; d < dimension_; ++d) {
             bool fixedVal = false;
-            for(size_t i = counter; i < fixedCoordinateIndex_.size(); ++i) {
-               if(d == fixedCoordinateIndex_[i]) ///??? replace i with counter for old version
+            for(size_t i = 0; i < fixedCoordinateIndex_.size(); ++i) {
+               if(d == fixedCoordinateIndex_[i])
                {
                   fixedVal = true;
-                  counter++;
                   break;
                }
             }
-- 
2.43.0


From af85aa41e2c388dd054e68e509183f6f377edf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 043/173] fix: CanonicalView multiplied models by zero when a
 variable has no unary factor

---
 include/opengm/utilities/canonical_view.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/canonical_view.hxx b/include/opengm/utilities/canonical_view.hxx
index cd3a342..666cd5e 100644
--- a/include/opengm/utilities/canonical_view.hxx
+++ b/include/opengm/utilities/canonical_view.hxx
@@ -279,7 +279,7 @@ public:
 			switch (unaryFactors[i].size()) {
 			case 0: { // Create new “empty” factor.
 				LabelType shape[1] = { gm.numberOfLabels(i) };
-				ConstFuncType func(shape, shape+1, 0);
+				ConstFuncType func(shape, shape+1, GM::OperatorType::template neutral<ValueType>());
 				fid = this->addFunction(func);
 				break;
 			}
-- 
2.43.0


From 0faf638c92c9c9a9701ef3d0fd93215edb06bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 044/173] fix: the hinted insert of RandomAccessSet did not
 compile

---
 include/opengm/datastructures/randomaccessset.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 7fd5b4f..849cc1a 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -363,8 +363,8 @@ RandomAccessSet<Key,Compare,Alloc>::insert
    const typename RandomAccessSet<Key,Compare,Alloc>::value_type& value
 )
 {
-   if((position == begin() || this->operator()(*(position-1),value))
-   && (position == end() || this->operator()(value, *position))) {
+   if((position == begin() || compare_(*(position-1),value))
+   && (position == end() || compare_(value, *position))) {
        return vector_.insert(position, value);
    }
    return insert(value).first;
-- 
2.43.0


From f6252ecc6054d1063c7de2404236901a43edea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 045/173] fix: the reverse iterators of RandomAccessSet did not
 compile

---
 .../opengm/datastructures/randomaccessset.hxx   | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 849cc1a..5cbf3a3 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -51,6 +51,7 @@ public:
    typedef typename VectorType::const_pointer const_pointer;
    /// const reverse iterator
    typedef typename VectorType::const_reverse_iterator	const_reverse_iterator;
+   typedef typename VectorType::reverse_iterator	reverse_iterator;
 
    // memeber functions:
    // constructor
@@ -67,13 +68,13 @@ public:
    // iterators
    const_iterator begin() const;
    const_iterator end() const;
-   const_iterator rbegin() const;
-   const_iterator rend() const;
+   const_reverse_iterator rbegin() const;
+   const_reverse_iterator rend() const;
 
    iterator begin();
    iterator end();
-   iterator rbegin();
-   iterator rend();
+   reverse_iterator rbegin();
+   reverse_iterator rend();
    bool empty() const;
    size_type size() const;
    size_type max_size() const;
@@ -232,7 +233,7 @@ RandomAccessSet<Key,Compare,Alloc>::end() const
 /// reverse const begin iterator
 /// \returns reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 {
    return vector_.rbegin();
@@ -241,7 +242,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 /// reverse const end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend() const
 {
     return vector_.rend();
@@ -268,7 +269,7 @@ RandomAccessSet<Key,Compare,Alloc>::end()
 /// reverse  begin iterator
 /// \param reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin()
 {
    return vector_.rbegin();
@@ -277,7 +278,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin()
 /// reverse end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend()
 {
     return vector_.rend();
-- 
2.43.0


From 29b4797a238030ea19f39a861ba0a069276ed42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:22 +0000
Subject: [PATCH 046/173] fix: copying a FastSequence that had shrunk or
 reserved memory corrupted the heap

---
 .../opengm/datastructures/fast_sequence.hxx   | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index d5ada69..fc58f77 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -117,7 +117,7 @@ FastSequence<T, MAX_STACK>::FastSequence
    const  FastSequence<T, MAX_STACK> & other
 )
 :  size_(other.size_),
-   capacity_(other.capacity_)
+   capacity_(other.size_>MAX_STACK ? other.size_ : MAX_STACK)
 {
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
@@ -152,23 +152,15 @@ FastSequence<T, MAX_STACK> & FastSequence<T, MAX_STACK>::operator=
       // capacity_=other.capacity_;
       // OPENGM_ASSERT(size_<=capacity_);
       // OPENGM_ASSERT(capacity_>=MAX_STACK);
-      if(other.size_>MAX_STACK) {
-         // delete old sequence
-         if(size_>MAX_STACK) {
+      if(other.size_>capacity_) {
+         T * tmp=new T[other.size_];
+         if(capacity_>MAX_STACK) {
             delete [] pointerToSequence_;
-            pointerToSequence_ = new T[other.size_];
          }
-         // nothing to delete
-         else{
-            pointerToSequence_ = new T[other.size_];
-         }
-         size_=other.size_;
-         capacity_=size_;
-      }
-      else{
-         pointerToSequence_=stackSequence_;
-         size_=other.size_;
+         pointerToSequence_=tmp;
+         capacity_=other.size_;
       }
+      size_=other.size_;
       std::copy(other.pointerToSequence_, other.pointerToSequence_+size_, pointerToSequence_);
    }
    return *this;
-- 
2.43.0


From 7ded4ded91065849f6ad4c55a63e4ab203d0c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:34 +0000
Subject: [PATCH 047/173] fix: FastSequence::push_back of one of its own
 elements read freed memory

---
 include/opengm/datastructures/fast_sequence.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index fc58f77..b678873 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -242,13 +242,16 @@ FastSequence<T, MAX_STACK>::push_back
    if(capacity_ == size_) {
       T * tmp=new T[capacity_ * 2];
       std::copy(pointerToSequence_, pointerToSequence_ + size_, tmp);
+      tmp[size_]=value; // value might be an element of this sequence
       if(capacity_ > MAX_STACK) {
          delete[] pointerToSequence_;
       }
       capacity_ *= 2;
       pointerToSequence_ = tmp;
    }
-   pointerToSequence_[size_]=value;
+   else {
+      pointerToSequence_[size_]=value;
+   }
    ++size_;
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
-- 
2.43.0


From 2b49ac528f4ac4211e0271a8ba10012a2c1326ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:34 +0000
Subject: [PATCH 048/173] fix: BufferVector::push_back of one of its own
 elements read freed memory

---
 include/opengm/datastructures/buffer_vector.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index b997815..de15940 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -231,17 +231,21 @@ namespace opengm{
          if(size_!=0) {
             T * tmp=new T[capacity_*2];
             std::copy(data_,data_+size_,tmp);
+            tmp[size_]=value; // value might be an element of this vector
             delete[] data_;
             capacity_*=2;
             data_=tmp;
          }
          else{
             T * tmp=new T[2];
+            tmp[size_]=value;
             capacity_=2;
             data_=tmp;
          }
       }
-      data_[size_]=value;
+      else{
+         data_[size_]=value;
+      }
       ++size_;
       OPENGM_ASSERT(size_<=capacity_);
    }
-- 
2.43.0


From f5de9642ddf5c911b51ef11b9780c81c9a83ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 049/173] fix: BufferVector::reserve changed the size of the
 vector

---
 include/opengm/datastructures/buffer_vector.hxx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index de15940..00ffffd 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -295,10 +295,8 @@ namespace opengm{
          else{
             data_=new T[size];
          }
-         size_=size;
          capacity_=size;
       }
-      //size_=size;
       OPENGM_ASSERT(size_<=capacity_);
    }
    
-- 
2.43.0


From fbb0cb7be501ae79a07ef49535ff0caebf5f303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 050/173] fix: an empty BufferVector had an uninitialised data
 pointer, which assignment deleted

---
 include/opengm/datastructures/buffer_vector.hxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index 00ffffd..1c7c1ce 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -73,7 +73,8 @@ namespace opengm{
       const size_t size
    )
    :  size_(size),
-      capacity_(size) {
+      capacity_(size),
+      data_(NULL) {
       if(size_!=0) {
       data_ = new T[size];
       }
@@ -89,8 +90,11 @@ namespace opengm{
       const T & value
    )
    :  size_(size),
-      capacity_(size) {
-      data_ = new T[size];
+      capacity_(size),
+      data_(NULL) {
+      if(size_!=0) {
+         data_ = new T[size];
+      }
       std::fill(data_,data_+size_,value);
    }
    
@@ -103,7 +107,8 @@ namespace opengm{
       const  BufferVector<T> & other
    )
    :  size_(other.size_),
-      capacity_(other.size_)
+      capacity_(other.size_),
+      data_(NULL)
    {
       if(size_!=0) {
          data_ = new T[size_];
-- 
2.43.0


From f7902c103327dff9a6d6db9692f1b2ea2c5d8d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 051/173] fix: RandomAccessSet::swap exchanged the elements but
 not the comparison

---
 include/opengm/datastructures/randomaccessset.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 5cbf3a3..794b955 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -425,7 +425,7 @@ RandomAccessSet<Key,Compare,Alloc>::swap
 )
 {
    vector_.swap(rhs.vector_);
-   compare_=rhs.compare_;
+   std::swap(compare_,rhs.compare_);
 }
 
 /// clear the set
-- 
2.43.0


From 2a428de03083b77fe722f759eaaf22c14c5acf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 052/173] fix: strides of a SparseFunction overflowed small
 label types

---
 include/opengm/datastructures/sparsemarray/sparsemarray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/sparsemarray/sparsemarray.hxx b/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
index b0cd979..e1f8eb3 100755
--- a/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
+++ b/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
@@ -44,7 +44,7 @@ public:
         shape_.resize(dimension_);
         strides_.resize(dimension_);
         // compute strides
-        LabelType strideVal=1;
+        size_t strideVal=1;
         for(unsigned short  dim=0;dim<dimension_;++dim){
             shape_[dim]=*shapeBegin;
             strides_[dim]=strideVal;
-- 
2.43.0


From 2ab484c093cb2d61206a92b9292907f95b933e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 053/173] fix: StaticSimpleDiscreteSpace did not compile

---
 .../opengm/graphicalmodel/space/static_simplediscretespace.hxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
index 793d08a..2ef5b10 100644
--- a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
@@ -93,7 +93,7 @@ inline typename StaticSimpleDiscreteSpace<LABELS,I, L>::LabelType
 StaticSimpleDiscreteSpace<LABELS,I, L>::numberOfLabels(
    const IndexType dimension
 ) const {
-   return static_cast<L> LABELS;
+   return static_cast<L>(LABELS);
 }
 
 template<size_t LABELS,class I, class L>
-- 
2.43.0


From bab69dc26f09d3f32072a2898d89d9b12640d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 054/173] fix: StaticSimpleDiscreteSpace::assignDense took the
 first label count for the number of variables

---
 .../opengm/graphicalmodel/space/static_simplediscretespace.hxx   | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
index 2ef5b10..3af3fb6 100644
--- a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
@@ -53,7 +53,6 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::assignDense(
    Iterator end
 ) {
    numberOfVariables_=std::distance(begin, end);
-   numberOfVariables_=static_cast<L>(*begin);
    while(begin!=end) {
       if(LABELS!=static_cast<size_t>(*begin)) {
          throw opengm::RuntimeError("*begin==LABELS_ is violated \
-- 
2.43.0


From 09c86924ce14d821eb7cf8e3acd68aae916037f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 055/173] fix: StaticSimpleDiscreteSpace::addVariable added
 nothing and returned nothing

---
 .../opengm/graphicalmodel/space/static_simplediscretespace.hxx  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
index 3af3fb6..331088f 100644
--- a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
@@ -79,6 +79,8 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::addVariable(
       throw opengm::RuntimeError("numberOfLabels==LABELS is violated \
       in StaticSimpleDiscreteSpace::addVariable ");
    }
+   ++numberOfVariables_;
+   return numberOfVariables_ - 1;
 }
 
 template<size_t LABELS,class I, class L>
-- 
2.43.0


From 98a740ebb15ddae2a82fdbb87863ac615fcf8d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 056/173] fix: ViewSpace did not compile

---
 include/opengm/graphicalmodel/space/viewspace.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/viewspace.hxx b/include/opengm/graphicalmodel/space/viewspace.hxx
index 1aa2da0..d98fff4 100644
--- a/include/opengm/graphicalmodel/space/viewspace.hxx
+++ b/include/opengm/graphicalmodel/space/viewspace.hxx
@@ -75,7 +75,7 @@ ViewSpace<GM>::numberOfVariables() const
 }
 
 template<class GM>
-inline typename ViewSpace<GM>::IndexType
+inline typename ViewSpace<GM>::LabelType
 ViewSpace<GM>::numberOfLabels
 (
    const IndexType dimension
-- 
2.43.0


From e60d4840ee936c96ed7e402c9d84bb9eb4033448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 057/173] fix: ViewSpace::addVariable did not throw its
 exception and returned nothing

---
 include/opengm/graphicalmodel/space/viewspace.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/viewspace.hxx b/include/opengm/graphicalmodel/space/viewspace.hxx
index d98fff4..4a50eff 100644
--- a/include/opengm/graphicalmodel/space/viewspace.hxx
+++ b/include/opengm/graphicalmodel/space/viewspace.hxx
@@ -63,7 +63,7 @@ ViewSpace<GM>::addVariable(
    const LabelType numberOfLabels
 )
 {
-   opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
+   throw opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
 }
 
 template<class GM>
-- 
2.43.0


From 1468fff58d3c6dd2caca2f556b553cb453f54df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 058/173] fix: GridSpace::numberOfLabels(x, y) was declared but
 not defined

---
 include/opengm/graphicalmodel/space/grid_space.hxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/opengm/graphicalmodel/space/grid_space.hxx b/include/opengm/graphicalmodel/space/grid_space.hxx
index 35cf0b2..4cd9a02 100644
--- a/include/opengm/graphicalmodel/space/grid_space.hxx
+++ b/include/opengm/graphicalmodel/space/grid_space.hxx
@@ -101,6 +101,19 @@ GridSpace<I, L>::numberOfLabels
    return numberOfStates_;
 }
 
+/// get the number of labels of the variable at a grid position
+template<class I, class L>
+inline typename GridSpace<I, L>::LabelType
+GridSpace<I, L>::numberOfLabels
+(
+   const typename GridSpace<I, L>::IndexType x,
+   const typename GridSpace<I, L>::IndexType y
+) const{
+   OPENGM_ASSERT(x<dimX_);
+   OPENGM_ASSERT(y<dimY_);
+   return numberOfStates_;
+}
+
 template<class I, class L>
 inline bool
 GridSpace<I, L>::isSimpleSpace() const{
-- 
2.43.0


From 697a4051cb9d697ef65a9ca52d7105b9466c6167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 059/173] fix: isSimpleSpace read the label count of variable 0
 of an empty space

---
 include/opengm/graphicalmodel/space/space_base.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/space_base.hxx b/include/opengm/graphicalmodel/space/space_base.hxx
index 1c67f59..203c9da 100644
--- a/include/opengm/graphicalmodel/space/space_base.hxx
+++ b/include/opengm/graphicalmodel/space/space_base.hxx
@@ -28,7 +28,10 @@ template<class SPACE, class I, class L>
 inline bool
 SpaceBase<SPACE, I, L>::isSimpleSpace() const {
    const IndexType numVar = static_cast<SPACE const*>(this)->numberOfVariables();
-   const IndexType l = static_cast<SPACE const*>(this)->numberOfLabels(0);
+   if(numVar == 0) {
+      return true;
+   }
+   const LabelType l = static_cast<SPACE const*>(this)->numberOfLabels(0);
    for(size_t i=1;i<numVar;++i) {
       if(l!=static_cast<SPACE const *>(this)->numberOfLabels(i)) {
          return false;
-- 
2.43.0


From 51d676b715112315201f46e0153c71305065fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 060/173] fix: SimpleDiscreteSpace::assignDense dereferenced
 the end of an empty range

---
 include/opengm/graphicalmodel/space/simplediscretespace.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/graphicalmodel/space/simplediscretespace.hxx b/include/opengm/graphicalmodel/space/simplediscretespace.hxx
index 48a8179..79f21bd 100644
--- a/include/opengm/graphicalmodel/space/simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/simplediscretespace.hxx
@@ -58,6 +58,10 @@ SimpleDiscreteSpace<I, L>::assignDense
    Iterator end
 ) {
    numberOfVariables_ = std::distance(begin, end);
+   if(begin == end) {
+      numberOfLabels_ = LabelType();
+      return;
+   }
    numberOfLabels_ = static_cast<L>(*begin);
    while(begin != end) {
       if(numberOfLabels_ != static_cast<LabelType>(*begin)) {
-- 
2.43.0


From a6381da47a6911318c2ee76dd00dd99bf3edfdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 061/173] fix: WeightConstraints::constraintSizes returned the
 lower bounds and did not compile when used

---
 include/opengm/graphicalmodel/weights.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/weights.hxx b/include/opengm/graphicalmodel/weights.hxx
index ee3ed2a..d1c0447 100644
--- a/include/opengm/graphicalmodel/weights.hxx
+++ b/include/opengm/graphicalmodel/weights.hxx
@@ -214,7 +214,7 @@ namespace learning{
         }
 
         const std::vector<size_t> & constraintSizes()const{
-            return cLowerBounds_;
+            return cSize_;
         }
         const std::vector<T> & constraintLowerBounds()const{
             return cLowerBounds_;
-- 
2.43.0


From a3eb7b285913224a710c3d0a8832846b9d6043a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 062/173] fix: WeightConstraints::addConstraint dropped the
 bounds of the constraint

---
 include/opengm/graphicalmodel/weights.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/graphicalmodel/weights.hxx b/include/opengm/graphicalmodel/weights.hxx
index d1c0447..5ac683d 100644
--- a/include/opengm/graphicalmodel/weights.hxx
+++ b/include/opengm/graphicalmodel/weights.hxx
@@ -244,6 +244,10 @@ namespace learning{
             // store offset / index in 'cIndices_' and 'cCoeff_'
             cStart_.push_back(cOffset_);
 
+            // store the bounds of this constraint
+            cLowerBounds_.push_back(lowerBound);
+            cUpperBounds_.push_back(upperBound);
+
             // increment the cOffset_ for the next constraint which
             // could be added by the user
             cOffset_ +=cSize;
-- 
2.43.0


From ecd80f0087047705eef19800b57e3583a269d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 063/173] fix: IndicatorVariable comparison operators did not
 define an order

---
 .../datastructures/indicator_variable.hxx     | 52 ++++++++-----------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/include/opengm/datastructures/indicator_variable.hxx b/include/opengm/datastructures/indicator_variable.hxx
index e151794..1f6e6c6 100644
--- a/include/opengm/datastructures/indicator_variable.hxx
+++ b/include/opengm/datastructures/indicator_variable.hxx
@@ -571,18 +571,15 @@ bool operator<(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
          return false;
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         if(indicatorVar1.variableLabelPairs_.size() == 0) {
-            return false;
-         }
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second >= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first;
+            }
+            if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return false;
       }
       return true;
    }
@@ -599,18 +596,15 @@ bool operator>(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
          return false;
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         if(indicatorVar1.variableLabelPairs_.size() == 0) {
-            return false;
-         }
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second <= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first;
+            }
+            if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return false;
       }
       return true;
    }
@@ -628,12 +622,11 @@ bool operator<=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first;
+            }
+            if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second;
             }
          }
       }
@@ -653,12 +646,11 @@ bool operator>=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first;
+            }
+            if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second;
             }
          }
       }
-- 
2.43.0


From aee8d3ef6eeffb8458ade9cfe0f1fc23d2afeb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 064/173] fix: TransportSolver::transpose gave the result the
 shape of the input and wrote out of bounds

---
 include/opengm/inference/auxiliary/transportationsolver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/transportationsolver.hxx b/include/opengm/inference/auxiliary/transportationsolver.hxx
index f0d3373..9779fe3 100644
--- a/include/opengm/inference/auxiliary/transportationsolver.hxx
+++ b/include/opengm/inference/auxiliary/transportationsolver.hxx
@@ -558,7 +558,7 @@ private:
 template<class T>
 void transpose(const MatrixWrapper<T>& input, MatrixWrapper<T>& result)
 {
- result.resize(input.xsize(),input.ysize());
+ result.resize(input.ysize(),input.xsize());
  for (size_t x=0;x<input.xsize();++x)
   for (size_t y=0;y<input.ysize();++y)
 	  result(y,x)=input(x,y);
-- 
2.43.0


From 2eda918cc0c787cbbed4fb641ea3d722bbc94201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 065/173] fix: LPReparametrisationStorage::getFactorValue took
 a constant factor for a unary one

---
 include/opengm/inference/auxiliary/lp_reparametrization.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/lp_reparametrization.hxx b/include/opengm/inference/auxiliary/lp_reparametrization.hxx
index e67da01..5056a98 100644
--- a/include/opengm/inference/auxiliary/lp_reparametrization.hxx
+++ b/include/opengm/inference/auxiliary/lp_reparametrization.hxx
@@ -70,9 +70,12 @@ public:
 				OPENGM_ASSERT(*(it+varId) < _dualVariables[findex][varId].size());
 				res+=_dualVariables[findex][varId][*(it+varId)];
 			}
-		}else
+		}else if (factor.numberOfVariables()==1)
 		{
 			res=getVariableValue(factor.variableIndex(0),*it);
+		}else
+		{
+			res=factor(it);
 		}
 		return res;
 	}
-- 
2.43.0


From 26e31dcbd9f70194419142b4c5c8d2e5fcfae5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 066/173] fix: TRWS_Reparametrizer took the label count of an
 unrelated variable

---
 include/opengm/inference/trws/trws_reparametrization.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_reparametrization.hxx b/include/opengm/inference/trws/trws_reparametrization.hxx
index 4305d6b..4762da6 100644
--- a/include/opengm/inference/trws/trws_reparametrization.hxx
+++ b/include/opengm/inference/trws/trws_reparametrization.hxx
@@ -423,7 +423,7 @@ void TRWS_Reparametrizer<Storage,ACC>::reparametrize(const ImmovableLabelingType
 			  {
 				  IndexType otherVarID=(localVarID==0 ? 1 : 0);
 				  labeling[localVarID]=it.first-it_begin;
-				  for (LabelType label=0;label<gm.numberOfLabels(otherVarID);++label)
+				  for (LabelType label=0;label<gm[factorID].numberOfLabels(otherVarID);++label)
 				  {
 					  labeling[otherVarID]=label;
 
-- 
2.43.0


From 5bd7a11d469eae6c693b4f0a15d6c14a98b379ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 067/173] fix: marray iterators stepping back from the end of a
 strided view pointed to the wrong element

---
 include/opengm/datastructures/marray/marray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index becb2dd..da71751 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4384,7 +4384,7 @@ Iterator<T, isConst, A>::operator--()
         --pointer_;
     }
     else {
-        if(index_ == view_->size()) {
+        if(index_ + 1 == view_->size()) {
             // decrement from end iterator
             --pointer_;
             if(view_->coordinateOrder() == LastMajorOrder) {
-- 
2.43.0


From b13b20723c3ac745d60384178f6dd51836df4c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 068/173] fix: View::squeeze to a scalar kept the mark of a
 strided view

---
 include/opengm/datastructures/marray/marray.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index da71751..cc80200 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -2425,6 +2425,7 @@ View<T, isConst, A>::squeeze()
             if(newDimension == 0) {
                 geometry_.resize(0);
                 geometry_.size() = 1;
+                geometry_.isSimple() = true;
             }
             else {
                 for(size_t j=0, k=0; j<geometry_.dimension(); ++j) {
-- 
2.43.0


From caf39fe663e9a26ffff18346eb1ed83db264e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 069/173] fix: adding a negative distance to a marray iterator
 at the end had no effect

---
 include/opengm/datastructures/marray/marray.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index cc80200..f7e4af8 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4255,6 +4255,9 @@ Iterator<T, isConst, A>::operator+=
 )
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
+    if(x < 0) {
+        return *this -= -x;
+    }
     if(index_ < view_->size()) { // view initialized and iterator not at the end
         if(index_ + x < view_->size()) {
             index_ += x;
-- 
2.43.0


From 9a97c0668e87a6ee3b8a6932d2fd03f4d3fdcffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 070/173] fix: arithmetic between a strided view and a scalar
 of a wider type was truncated to the element type

---
 include/opengm/datastructures/marray/marray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index f7e4af8..42ea731 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -5603,7 +5603,7 @@ public:
             { iterator_.incrementCoordinate(coordinateIndex); }
         void resetCoordinate(const size_t coordinateIndex)
             { iterator_.resetCoordinate(coordinateIndex); }
-        const T operator*() const
+        const value_type operator*() const
             { return binaryFunctor_(scalar_, *iterator_); }
     private:
         BinaryFunctor binaryFunctor_;
@@ -5677,7 +5677,7 @@ public:
             { iterator_.incrementCoordinate(coordinateIndex); }
         void resetCoordinate(const size_t coordinateIndex)
             { iterator_.resetCoordinate(coordinateIndex); }
-        const T operator*() const
+        const value_type operator*() const
             { return binaryFunctor_(*iterator_, scalar_); }
     private:
         BinaryFunctor binaryFunctor_;
-- 
2.43.0


From 7749272f02e8308c0c0f128df65b5e2d42b9c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 071/173] fix: resizing an array to a scalar reset its
 coordinate order

---
 include/opengm/datastructures/marray/marray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 42ea731..607ef22 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -3892,10 +3892,10 @@ Marray<T, A>::resize
 {
     if(std::distance(begin,end)==0) {
        if(this->size()>0) {
-       *this=Marray<T,A>((*this).operator()(0));
+       *this=Marray<T,A>((*this).operator()(0), this->coordinateOrder());
        }
        else{
-          *this=Marray<T,A>(value);
+          *this=Marray<T,A>(value, this->coordinateOrder());
        }
 
     }
-- 
2.43.0


From 0eb719f2ac61b818f2c07e4f50e9d016908a4f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 072/173] fix: Gibbs sampler did not count its start state as a
 candidate for the best state

Without a start point the best value began at the neutral element, so a
state worse than the start could be returned; reset() kept the old best
value next to the new best state.
---
 include/opengm/inference/gibbs.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 959df70..af6702c 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -189,10 +189,9 @@ Gibbs<GM, ACC>::Gibbs
    gm_(gm), 
    movemaker_(gm), 
    currentBestState_(gm.numberOfVariables()),
-   currentBestValue_()
+   currentBestValue_(movemaker_.value())
 {
    inInference_=false;
-   ACC::ineutral(currentBestValue_);
    if(parameter.startPoint_.size() != 0) {
       if(parameter.startPoint_.size() == gm.numberOfVariables()) {
          movemaker_.initialize(parameter.startPoint_.begin());
@@ -221,6 +220,7 @@ Gibbs<GM, ACC>::reset() {
    else {
      movemaker_.reset();
      std::fill(currentBestState_.begin(), currentBestState_.end(), 0);
+         currentBestValue_ = movemaker_.value();
    }
 }
 
-- 
2.43.0


From ba799d53872410c50c7f7f6662b29dc54758f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 073/173] fix: cyclic proposals of the Gibbs sampler always
 picked the same variable

The index was a local of the loop body, so it started from 0 each time.
---
 include/opengm/inference/gibbs.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index af6702c..1612b2d 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -275,6 +275,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
    visitor.begin(*this);
    opengm::RandomUniform<size_t> randomVariable(0, gm_.numberOfVariables());
    opengm::RandomUniform<ProbabilityType> randomProb(0, 1);
+   size_t cyclicIndex = 0; // next variable to be proposed in CYCLIC mode
    
    if(parameter_.useTemp_==false){
       for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
@@ -284,7 +285,8 @@ InferenceTermination Gibbs<GM, ACC>::infer(
             variableIndex = randomVariable();
          }
          else if(this->parameter_.variableProposal_ == Parameter::CYCLIC) {
-            variableIndex < gm_.numberOfVariables() - 1 ? ++variableIndex : variableIndex = 0;
+            variableIndex = cyclicIndex;
+            cyclicIndex = (cyclicIndex + 1 < gm_.numberOfVariables()) ? cyclicIndex + 1 : 0;
          }
 
          // draw label
@@ -334,7 +336,8 @@ InferenceTermination Gibbs<GM, ACC>::infer(
             variableIndex = randomVariable();
          }
          else if(this->parameter_.variableProposal_ == Parameter::CYCLIC) {
-            variableIndex < gm_.numberOfVariables() - 1 ? ++variableIndex : variableIndex = 0;
+            variableIndex = cyclicIndex;
+            cyclicIndex = (cyclicIndex + 1 < gm_.numberOfVariables()) ? cyclicIndex + 1 : 0;
          }
 
          // draw label
-- 
2.43.0


From ed0e5d7c948462ff8a5204d1dd205fd73e3c9a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 074/173] fix: temperature of the Gibbs sampler was not a
 number for fewer steps than periods

The period length was computed by integer division and became zero.
---
 include/opengm/inference/gibbs.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 1612b2d..b31a85f 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -126,7 +126,7 @@ public:
          tempMin_(tmin),
          tempMax_(tmax),
          periods_(periods){
-         p_=static_cast<ValueType>(maxNumberOfSamplingSteps_/periods_);
+         p_=static_cast<ValueType>(maxNumberOfSamplingSteps_)/static_cast<ValueType>(periods_);
       }
       bool useTemp_;
       ValueType tempMin_;
-- 
2.43.0


From db29b26c6f0db9fb1dbd81cd6f041609c58e2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 075/173] fix: GibbsMarginalVisitor could not be used with
 Gibbs

Gibbs calls its visitors with the solver as only argument, but the
marginal visitor still had the former six-argument interface. The solver
now tells whether the latest step was burn-in and whether it was accepted.
---
 include/opengm/inference/gibbs.hxx | 33 ++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index b31a85f..dd856c1 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -69,11 +69,11 @@ public:
    template<class VariableIndexIterator>
       size_t addMarginal(VariableIndexIterator, VariableIndexIterator);
    size_t addMarginal(const size_t);
-   void operator()(const GibbsType&, const ValueType, const ValueType, const size_t, const bool, const bool);
+   void operator()(const GibbsType&);
 
    // query
-   void begin(const GibbsType&, const ValueType, const ValueType) const {}
-   void end(const GibbsType&, const ValueType, const ValueType) const {}
+   void begin(const GibbsType&) const {}
+   void end(const GibbsType&) const {}
    size_t numberOfSamples() const;
    size_t numberOfAcceptedSamples() const;
    size_t numberOfRejectedSamples() const;
@@ -155,6 +155,8 @@ public:
    ValueType markovValue() const;
    LabelType currentBestState(const size_t) const;
    ValueType currentBestValue() const;
+   bool burningIn() const { return burningIn_; }   ///< true if the latest step is part of the burn-in
+   bool accepted() const { return accepted_; }     ///< true if the latest proposal was accepted
 
 private:
    ValueType cosTemp(const ValueType arg,const ValueType periode,const ValueType min,const ValueType max)const{
@@ -176,6 +178,8 @@ private:
    std::vector<size_t> currentBestState_;
    ValueType currentBestValue_;
    bool inInference_;
+   bool burningIn_;
+   bool accepted_;
 };
 
 template<class GM, class ACC>
@@ -192,6 +196,8 @@ Gibbs<GM, ACC>::Gibbs
    currentBestValue_(movemaker_.value())
 {
    inInference_=false;
+   burningIn_=false;
+   accepted_=false;
    if(parameter.startPoint_.size() != 0) {
       if(parameter.startPoint_.size() == gm.numberOfVariables()) {
          movemaker_.initialize(parameter.startPoint_.begin());
@@ -294,7 +300,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
          const size_t label = randomLabel();
 
          // move
-         const bool burningIn = (iteration < parameter_.numberOfBurnInSteps_);
+         burningIn_ = (iteration < parameter_.numberOfBurnInSteps_);
          if(label != movemaker_.state(variableIndex)) {
             const ValueType oldValue = movemaker_.value();
             const ValueType newValue = movemaker_.valueAfterMove(&variableIndex, &variableIndex + 1, &label);
@@ -306,6 +312,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
+               accepted_ = true;
                visitor(*this);
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
@@ -316,10 +323,12 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   >::convert(newValue, oldValue);
                if(randomProb() < pFlip) {
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
+                  accepted_ = true;
                   visitor(*this);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
+                  accepted_ = false;
                   visitor(*this);
                  // visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
@@ -345,7 +354,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
          const size_t label = randomLabel();
 
          // move
-         const bool burningIn = (iteration < parameter_.numberOfBurnInSteps_);
+         burningIn_ = (iteration < parameter_.numberOfBurnInSteps_);
          if(label != movemaker_.state(variableIndex)) {
             const ValueType oldValue = movemaker_.value();
             const ValueType newValue = movemaker_.valueAfterMove(&variableIndex, &variableIndex + 1, &label);
@@ -357,6 +366,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
+               accepted_ = true;
                visitor(*this);
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
@@ -368,11 +378,13 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                if(randomProb() < pFlip*this->getTemperature(iteration)){
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
+                  accepted_ = true;
                   visitor(*this);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
+                  accepted_ = false;
                   visitor(*this);
                   //visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
@@ -482,16 +494,11 @@ GibbsMarginalVisitor<GIBBS>::assign(
 template<class GIBBS>
 inline void
 GibbsMarginalVisitor<GIBBS>::operator()(
-   const typename GibbsMarginalVisitor<GIBBS>::GibbsType& gibbs, 
-   const typename GibbsMarginalVisitor<GIBBS>::ValueType currentValue, 
-   const typename GibbsMarginalVisitor<GIBBS>::ValueType bestValue, 
-   const size_t iteration, 
-   const bool accepted, 
-   const bool burningIn
+   const typename GibbsMarginalVisitor<GIBBS>::GibbsType& gibbs
 ) {
-   if(!burningIn) {
+   if(!gibbs.burningIn()) {
       ++numberOfSamples_;
-      if(accepted) {
+      if(gibbs.accepted()) {
          ++numberOfAcceptedSamples_;
       }
       else {
-- 
2.43.0


From d73b18243b1cda86c475205e2444074bddd4de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 076/173] fix: swendsenwang.hxx included a visitor header that
 does not exist

---
 include/opengm/inference/swendsenwang.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/swendsenwang.hxx b/include/opengm/inference/swendsenwang.hxx
index e981cb2..a4183f9 100644
--- a/include/opengm/inference/swendsenwang.hxx
+++ b/include/opengm/inference/swendsenwang.hxx
@@ -19,7 +19,8 @@
 #include "opengm/datastructures/randomaccessset.hxx"
 #include "opengm/datastructures/partition.hxx"
 #include "opengm/inference/movemaker.hxx"
-#include "opengm/inference/visitors/visitor.hxx"
+#include "opengm/inference/inference.hxx"
+#include "opengm/inference/visitors/visitors.hxx"
 #include "opengm/functions/view_convert_function.hxx"
 
 namespace opengm {
@@ -121,7 +122,7 @@ public:
    typedef double ProbabilityType;
    typedef SwendsenWangEmptyVisitor<SwendsenWang<GM, ACC> > EmptyVisitorType;
    typedef SwendsenWangVerboseVisitor<SwendsenWang<GM, ACC> > VerboseVisitorType;
-   typedef TimingVisitor<SwendsenWang<GM, ACC> > TimingVisitorType;
+   typedef visitors::TimingVisitor<SwendsenWang<GM, ACC> > TimingVisitorType;
 
    struct Parameter
    {
-- 
2.43.0


From 159039900caf0de839a0dd95154c474780393396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 077/173] fix: SwendsenWang with a start state reported the
 all-zero labelling with the value of the start

---
 include/opengm/inference/swendsenwang.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/swendsenwang.hxx b/include/opengm/inference/swendsenwang.hxx
index a4183f9..f13a5cf 100644
--- a/include/opengm/inference/swendsenwang.hxx
+++ b/include/opengm/inference/swendsenwang.hxx
@@ -192,6 +192,7 @@ SwendsenWang<GM, ACC>::SwendsenWang
    if(parameter_.initialState_.size() != 0 && parameter_.initialState_.size() != gm.numberOfVariables()) {
       throw RuntimeError("The size of the initial state does not match the number of variables.");
    }
+   std::copy(movemaker_.stateBegin(), movemaker_.stateEnd(), currentBestState_.begin());
    gm.variableAdjacencyList(variableAdjacency_);
    for(size_t j=0; j<gm_.numberOfVariables(); ++j) {
       edgeProbabilities_[j].resize(variableAdjacency_[j].size());
-- 
2.43.0


From 7e770c507c1d0b8c0a5ed6ba3e0a27b46f1265fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 078/173] fix: PartitionMove ignored all but the last factor of
 a pair of variables

The edge of an earlier factor was overwritten in the neighbour map and its
weight lost, so that moves could make the partition worse.
---
 include/opengm/inference/partition-move.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/partition-move.hxx b/include/opengm/inference/partition-move.hxx
index b508356..4b43feb 100644
--- a/include/opengm/inference/partition-move.hxx
+++ b/include/opengm/inference/partition-move.hxx
@@ -171,12 +171,15 @@ PartitionMove<GM, ACC>::PartitionMove
       else if(gm_[f].numberOfVariables()==2) {
          LabelType cc0[] = {0,0};
          LabelType cc1[] = {0,1};
-         edgeWeight_[numberOfInternalEdges] += gm_[f](cc1) - gm_[f](cc0); 
          constant_ += gm_[f](cc0);
          IndexType u = gm_[f].variableIndex(0);
          IndexType v = gm_[f].variableIndex(1);
-         neighbours_[u][v] = numberOfInternalEdges;
-         neighbours_[v][u] = numberOfInternalEdges;
+         if(neighbours_[u].find(v) == neighbours_[u].end()) {
+            neighbours_[u][v] = numberOfInternalEdges;
+            neighbours_[v][u] = numberOfInternalEdges;
+         }
+         // several factors of the same pair of variables share one edge
+         edgeWeight_[neighbours_[u][v]] += gm_[f](cc1) - gm_[f](cc0); 
          ++numberOfInternalEdges;
       }    
       else{
-- 
2.43.0


From feb950f0755e34327194721902241d3cfcb3b057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 079/173] fix: integer random pairwise functions of
 SyntheticModelGenerator2 left the configured range

The difference of the bounds was taken the wrong way round.
---
 .../graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
index d617f28..e9968a3 100644
--- a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
+++ b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
@@ -496,7 +496,7 @@ namespace opengm {
          ExplicitFunctionType function(shapeBegin, shapeEnd);
          for(typename GM::LabelType ni = 0; ni < shapeBegin[0]; ++ni) {
             for(typename GM::LabelType nj = 0; nj < shapeBegin[1]; ++nj) {
-               function(ni, nj) = functionParameter[0] + rand() % (size_t) (functionParameter[0] - functionParameter[1]);
+               function(ni, nj) = functionParameter[0] + rand() % (size_t) (functionParameter[1] - functionParameter[0]);
             }
          }
          return gm.addFunction(function);
-- 
2.43.0


From 97d51ed99df95aabd9fe2c098dda81d32618c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 080/173] fix: fuseFixQpbo exchanged the two parents in all
 factors of order above one

---
 .../opengm/inference/auxiliary/fusion_move/fusion_mover.hxx   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
index 0d0f10d..931a736 100644
--- a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
+++ b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
@@ -1071,11 +1071,11 @@ FusionMover<GM, ACC>::fuseFixQpbo(
                     //if (    assignment%2 ==  (std::pow(2,i))%2  )
                     if (assignment & (1 << i))
                     {
-                        cliqueLabels[i] = 0;
+                        cliqueLabels[i] = 1;
                     }
                     else
                     {
-                        cliqueLabels[i] = 1;
+                        cliqueLabels[i] = 0;
                     }
                 }
                 ValueType energy = subGm[f](cliqueLabels.begin());
-- 
2.43.0


From f7a34250a56cae93cd15df3052392c4340507d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 081/173] fix: FusionMover returned the first parent with the
 value of the second when the solver gives up

---
 include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
index 931a736..b1679c6 100644
--- a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
+++ b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
@@ -918,6 +918,7 @@ FusionMover<GM, ACC>::fuse(
     }
     else{
        valueResult_ = valueBest_;
+       std::copy(argBest_->begin(), argBest_->end(), argResult_->begin());
     }
     modelProxy.freeModel(); 
     //std::cout<<"done!"<<std::endl;
-- 
2.43.0


From 53d5c494f1819e1f73e666014bc1879a2a722b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 082/173] fix: UpDownGen left the label range on single-label
 variables and forgot the previous labels

---
 include/opengm/inference/fusion_based_inf.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 3ef0c3a..1f8fdc2 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -179,8 +179,14 @@ namespace proposal_gen{
 
                 const LabelType ol = argBuffer_[vi];   
                 const LabelType cl = current[vi];   
-                
-                std::copy(current.begin(), current.end(), argBuffer_.begin());
+
+                argBuffer_[vi] = cl;
+
+                // a single label leaves no choice
+                if(numL<2){
+                    proposal[vi] = cl;
+                    continue;
+                }
 
                 // flip direction?
                 if(ol == cl){
-- 
2.43.0


From d5613fb8142956fdbef5f4e80a6ac77a9063ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 083/173] fix: Random2Gen proposed label 1 for variables with a
 single label

---
 include/opengm/inference/fusion_based_inf.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 1f8fdc2..3b00142 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -380,7 +380,7 @@ namespace proposal_gen{
             for (IndexType vi = 0; vi < gm_.numberOfVariables(); ++vi){
                 // draw label
                 opengm::RandomUniform<size_t> randomLabel(0,3,currentStep_+vi);
-                proposal[vi] = std::min(randomLabel(),size_t(1));
+                proposal[vi] = std::min(std::min(randomLabel(),size_t(1)), size_t(gm_.numberOfLabels(vi)-1));
             }
             ++currentStep_;
         }
-- 
2.43.0


From 00375536824ee1edf75e1cbdea4c0ccb25f5d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 084/173] fix: BlurGen proposed labels one past the last and
 read an unset grid height

---
 include/opengm/inference/fusion_based_inf.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 3b00142..618c78a 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -549,6 +549,7 @@ namespace proposal_gen{
               kernel_[kradius-i] /= sum;
            }
 
+           height_ = gm_.numberOfVariables();
            size_t N = gm_.numberOfFactors(0);
            for(size_t i=1; i<gm_.numberOfVariables(); ++i){
               if(N==gm_.numberOfFactors(i)){
@@ -622,7 +623,7 @@ namespace proposal_gen{
               proposal.resize(gm_.numberOfVariables(),0.0);
               opengm::RandomUniform<double> randomLabel(-param_.sigma_*1.5, param_.sigma_*1.5,currentStep_);
               for(size_t i=0; i<proposal.size();++i){
-                 proposal[i] = std::min(gm_.numberOfLabels(i), (LabelType)(std::max(0.0,bluredLabel_[i] + randomLabel())));
+                 proposal[i] = std::min<LabelType>(gm_.numberOfLabels(i)-1, (LabelType)(std::max(0.0,bluredLabel_[i] + randomLabel())));
               }
            }
            ++currentStep_;
-- 
2.43.0


From a51fc1b7c4200bba83f5c28702034cb41951acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 085/173] fix: EnergyBlurGen wrote past its generators and
 proposed labels one past the last

---
 include/opengm/inference/fusion_based_inf.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 618c78a..e0f6d7c 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -680,6 +680,7 @@ namespace proposal_gen{
                 kernel[kradius-i] /= sum;
              }
 
+             height_ = gm_.numberOfVariables();
              size_t N = gm_.numberOfFactors(0);
              for(size_t i=1; i<gm_.numberOfVariables(); ++i){
                 if(N==gm_.numberOfFactors(i)){
@@ -761,7 +762,7 @@ namespace proposal_gen{
                 }
              } 
              if(param_.useLocalMargs_){
-                localMargGens_.reserve(bluredOpt.size());
+                localMargGens_.resize(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    const ValueType minValue = *std::min_element(margs[var].begin(),margs[var].end());
                    for(LabelType l=0; l<numLabels; ++l){
@@ -773,10 +774,10 @@ namespace proposal_gen{
                    localMargGens_[var]=opengm::RandomDiscreteWeighted<LabelType,ValueType>(margs[var].begin(),margs[var].end(),var);  
                 }
              }else{
-                uniformGens_.reserve(bluredOpt.size());
+                uniformGens_.resize(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    LabelType minVal = (LabelType)(std::max((double)(0)         , bluredOpt[var]-param_.sigma_*1.5));
-                   LabelType maxVal = (LabelType)(std::min((double)(numLabels) , bluredOpt[var]+param_.sigma_*1.5));
+                   LabelType maxVal = (LabelType)(std::min((double)(numLabels-1) , bluredOpt[var]+param_.sigma_*1.5));
                    uniformGens_[var] = opengm::RandomUniform<LabelType>(minVal, maxVal+1, var);
                 }
              }   
-- 
2.43.0


From 7073e6c8caa782954b4c5122c6cf2b0a8c1aeb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 086/173] fix: DynamincGen never created the generator it
 forwards to

---
 include/opengm/inference/fusion_based_inf.hxx | 43 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index e0f6d7c..113c7dc 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -846,7 +846,45 @@ namespace proposal_gen{
         DynamincGen(const GM & gm, const Parameter & param)
         : 
             gm_(gm),
-            param_(param){
+            param_(param),
+            alphaExpansionGen_(NULL),
+            alphaBetaSwapGen_(NULL),
+            upDownGen_(NULL),
+            randomGen_(NULL),
+            randomLFGen_(NULL),
+            nonUniformRandomGen_(NULL),
+            blurGen_(NULL),
+            energyBlurGen_(NULL){
+            if(param_.gen_ == AlphaExpansion)
+                alphaExpansionGen_ = new AlphaExpansionGen<GM, ACC>(gm_, typename AlphaExpansionGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == AlphaBetaSwap)
+                alphaBetaSwapGen_ = new AlphaBetaSwapGen<GM, ACC>(gm_, typename AlphaBetaSwapGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == UpDown)
+                upDownGen_ = new UpDownGen<GM, ACC>(gm_, typename UpDownGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == Random)
+                randomGen_ = new RandomGen<GM, ACC>(gm_, typename RandomGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == RandomLF)
+                randomLFGen_ = new RandomLFGen<GM, ACC>(gm_, typename RandomLFGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == NonUniformRandom)
+                nonUniformRandomGen_ = new NonUniformRandomGen<GM, ACC>(gm_, typename NonUniformRandomGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == Blur)
+                blurGen_ = new BlurGen<GM, ACC>(gm_, typename BlurGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == EnergyBlur)
+                energyBlurGen_ = new EnergyBlurGen<GM, ACC>(gm_, typename EnergyBlurGen<GM, ACC>::Parameter());
+            else{
+                throw RuntimeError("unknown generator type");
+            }
+        }
+
+        ~DynamincGen(){
+            delete alphaExpansionGen_;
+            delete alphaBetaSwapGen_;
+            delete upDownGen_;
+            delete randomGen_;
+            delete randomLFGen_;
+            delete nonUniformRandomGen_;
+            delete blurGen_;
+            delete energyBlurGen_;
         }
 
         void reset(){
@@ -913,6 +951,9 @@ namespace proposal_gen{
             }
         }
     private:
+        DynamincGen(const DynamincGen &);
+        DynamincGen & operator=(const DynamincGen &);
+
         const GM & gm_;
         Parameter param_;
 
-- 
2.43.0


From 7fcd0bd6b4a32104f6b7d0fd7a956f60527d6984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 087/173] fix: SelfFusion replaced the first labelling it saw
 by all zeros

---
 include/opengm/inference/self_fusion.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 9e7e9ea..50f55ae 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -111,10 +111,10 @@ struct FusionVisitor{
         ValueType oldValue = value_;
 
         if(iteration_==0 ){         
-            inference.arg(argBest_);
+            inference.arg(argFromInf_);
             ValueType value = inference.value();
             if(AccumulationType::bop(value,value_)){
-               std::copy(argOut_.begin(),argOut_.end(),argBest_.begin());
+               std::copy(argFromInf_.begin(),argFromInf_.end(),argBest_.begin());
                value_ = value;
             }
             returnFlag_ =   selfFusionVisitor_(selfFusion_);
-- 
2.43.0


From 40d684de69ce171d6e8449122593e057b79bb265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 088/173] fix: SelfFusion ignored the final labelling of the
 solver it fuses

---
 include/opengm/inference/self_fusion.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 50f55ae..68264ab 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -91,6 +91,12 @@ struct FusionVisitor{
     void end(
         INF  & inf
     ){
+        inf.arg(argFromInf_);
+        const ValueType value = gm_.evaluate(argFromInf_);
+        if(AccumulationType::bop(value,value_)){
+            std::copy(argFromInf_.begin(),argFromInf_.end(),argBest_.begin());
+            value_ = value;
+        }
     }
 
     size_t operator()(
-- 
2.43.0


From 0efd743cde71e1c566e9a2e95734f6636bdcd937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 089/173] fix: Bruteforce reported a value that is not its
 labelling's before it ran

---
 include/opengm/inference/bruteforce.hxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/opengm/inference/bruteforce.hxx b/include/opengm/inference/bruteforce.hxx
index 2548293..ce43675 100644
--- a/include/opengm/inference/bruteforce.hxx
+++ b/include/opengm/inference/bruteforce.hxx
@@ -68,10 +68,8 @@ Bruteforce<GM, AKK>::Bruteforce
 :  gm_(gm),
    movemaker_(Movemaker<GM>(gm)),
    states_(std::vector<typename GM::LabelType>(gm.numberOfVariables() )),
-   energy_(typename Bruteforce<GM, AKK>::ValueType())
-{
-   AKK::neutral(energy_);
-}
+   energy_(movemaker_.value())
+{}
 
 template<class GM, class AKK>
 void
@@ -79,7 +77,7 @@ Bruteforce<GM, AKK>::reset()
 {
    movemaker_.reset();
    std::fill(states_.begin(), states_.end(), 0);
-   AKK::neutral(energy_);
+   energy_ = movemaker_.value();
 }
 
 template<class GM, class AKK>
@@ -91,7 +89,7 @@ Bruteforce<GM, AKK>::Bruteforce
 :  gm_(gm),
    movemaker_(Movemaker<GM>(gm)),
    states_(std::vector<typename GM::LabelType>(gm.numberOfVariables())),
-   energy_(typename Bruteforce<GM, AKK>::ValueType())
+   energy_(movemaker_.value())
 {}
 
 template<class GM, class AKK>
@@ -108,7 +106,6 @@ Bruteforce<GM, AKK>::infer
        vi[j] = j;
    }
 
-   AccumulationType::neutral(energy_); 
    bool exitInf = false;
    visitor.begin(*this);
    while(exitInf == false) {
-- 
2.43.0


From b0c7c71a9d081861b485b93c40f1525ccd8c37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 090/173] fix: AStar continued from the exhausted heap when run
 again or reset

---
 include/opengm/inference/astar.hxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 043169f..cf33d73 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -287,12 +287,17 @@ namespace opengm {
    /// \warning  reset assumes that the structure of
    /// the graphical model has not changed
    ///
-   /// TODO
    template<class GM, class ACC >
    void
    AStar<GM,ACC>::reset()
    {
-      ///todo
+      optConf_.clear();
+      ACC::ineutral(belowBound_);
+      ACC::neutral(aboveBound_);
+      AStarNode<IndependentFactorType> a;
+      a.conf.resize(0);
+      a.value = 0;
+      array_.assign(1, a);
    }
 
    template <class GM, class ACC>
@@ -310,7 +315,7 @@ namespace opengm {
    InferenceTermination AStar<GM,ACC>::infer(VisitorType& visitor)
    { 
       size_t exitFlag=0;
-      optConf_.resize(0);
+      reset();
       visitor.begin(*this);    
       while(array_.size()>0 && exitFlag==0) {
          if(parameter_.numberOfOpt_ == optConf_.size()) {
-- 
2.43.0


From fe04ade016ae658099851a6e60b5799719b8b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 091/173] fix: InfAndFlip::arg read an empty labelling before
 infer

---
 include/opengm/inference/infandflip.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/infandflip.hxx b/include/opengm/inference/infandflip.hxx
index 09820c6..45a3412 100644
--- a/include/opengm/inference/infandflip.hxx
+++ b/include/opengm/inference/infandflip.hxx
@@ -111,7 +111,8 @@ InfAndFlip<GM, ACC, INF>::InfAndFlip(
    if(gm_.numberOfVariables() == 0) {
       throw RuntimeError("The graphical model has no variables.");
    }
-   value_ = ACC::template neutral<ValueType>();
+   state_.assign(gm_.numberOfVariables(), 0);
+   value_ = gm_.evaluate(state_);
    bound_ = ACC::template ineutral<ValueType>();
 }
 
-- 
2.43.0


From 779b3dc55471324ccd6ee0f472545a3b4f469fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 092/173] fix: SelfFusion reported a value that is not its
 labelling's before the first fusion

---
 include/opengm/inference/self_fusion.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 68264ab..989bc5c 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -419,7 +419,8 @@ SelfFusion<INFERENCE>::SelfFusion
    value_(),
    maxOrder_(gm.factorOrder())
 {
-    AccumulationType::neutral(value_);
+    value_ = gm_.evaluate(argBest_);
+    AccumulationType::ineutral(bound_);
 }
       
 
@@ -465,7 +466,6 @@ InferenceTermination SelfFusion<INFERENCE>::infer
 )
 {
    AccumulationType::ineutral(bound_);
-   AccumulationType::neutral(value_);
 
    visitor.begin(*this);
    visitor.addLog("infValue");
-- 
2.43.0


From fcad83f6d4db0f3e9e6338cfaecda9779638dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 093/173] fix: GraphCut added its terminal edges again on every
 infer

---
 include/opengm/inference/graphcut.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index d617ae5..ea45a2c 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -370,6 +370,8 @@ GraphCut<GM, ACC, MINSTCUT>::infer(VISITOR & visitor) {
    for(size_t i=0; i<sEdges_.size(); ++i) {
       minStCut_->addEdge(0, i+2, sEdges_[i]);
       minStCut_->addEdge(i+2, 1, tEdges_[i]);
+      sEdges_[i] = 0;
+      tEdges_[i] = 0;
    }
    minStCut_->calculateCut(state_);
    inferenceDone_=true;
-- 
2.43.0


From e7f997251bc9c49d08feda442788de317f55486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 094/173] fix: DualDecompositionSubGradient returned an empty
 labelling as result before its first iteration

---
 .../dualdecomposition/dualdecomposition_subgradient.hxx         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index ae3247d..fe1a9d5 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -279,7 +279,7 @@ namespace opengm {
    InferenceTermination DualDecompositionSubGradient<GM,INF,DUALBLOCK>::
    arg(std::vector<LabelType>& conf, const size_t n)const 
    {
-      if(n!=1){
+      if(n!=1 || acUpperBound_.size()!=gm_.numberOfVariables()){
          return UNKNOWN;
       }
       else{ 
-- 
2.43.0


From 631feb2218da37604c1a5726ea3b4b453857a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 095/173] fix: TRWSi, ADSal and Nesterov reported a value that
 is not their labelling's before the first iteration

---
 include/opengm/inference/trws/smoothing_strategy.hxx | 1 +
 include/opengm/inference/trws/trws_base.hxx          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/opengm/inference/trws/smoothing_strategy.hxx b/include/opengm/inference/trws/smoothing_strategy.hxx
index 4ce5e8d..b333552 100644
--- a/include/opengm/inference/trws/smoothing_strategy.hxx
+++ b/include/opengm/inference/trws/smoothing_strategy.hxx
@@ -562,6 +562,7 @@ public:
 	  _bestIntegerBound(ACC::template neutral<ValueType>()),
 	  _bestIntegerLabeling(_storage.masterModel().numberOfVariables(),0.0)
 	  {
+		  _bestIntegerBound=gm.evaluate(_bestIntegerLabeling.begin());
 		  ValueType smoothingMultiplier=SmoothingStrategyType::ComputeSmoothingMultiplier(_storage);
 
 		  if ( (param.smoothingStrategy()==Parameter::SmoothingParametersType::WC_PRECISIONORIENTED)  ||
diff --git a/include/opengm/inference/trws/trws_base.hxx b/include/opengm/inference/trws/trws_base.hxx
index facdcba..ecca4da 100644
--- a/include/opengm/inference/trws/trws_base.hxx
+++ b/include/opengm/inference/trws/trws_base.hxx
@@ -558,6 +558,7 @@ _sumMarginal()
 #ifdef TRWS_DEBUG_OUTPUT
 	_fout.precision(16);
 #endif
+	_bestIntegerBound=storage.masterModel().evaluate(_bestIntegerLabeling.begin());
 	_InitSubSolvers();
 	_marginals.resize(_storage.numberOfModels());
 #ifdef TRWS_DEBUG_OUTPUT
-- 
2.43.0


From 6a11b115fa51e01fd8852f939cedfa8dd35b73b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 096/173] fix: DualDecompositionSubGradient divided by a zero
 subgradient norm when all parts agree

---
 .../inference/dualdecomposition/dualdecomposition_base.hxx | 3 +++
 .../dualdecomposition/dualdecomposition_subgradient.hxx    | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_base.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_base.hxx
index 9e0aeb9..026bc24 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_base.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_base.hxx
@@ -81,6 +81,9 @@ namespace opengm {
 
       double getStepsize(size_t iteration, double primalDualGap, double subgradientNorm){
          OPENGM_ASSERT(iteration>=0);
+         // all parts agree: there is no direction to step in (and no norm to divide by)
+         if(subgradientNorm == 0)
+            return 0;
          double stepsize = stepsizeStride_;
          if(stepsizePrimalDualGapStride_){ 
             stepsize *= fabs(primalDualGap) / subgradientNorm / subgradientNorm;
diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index fe1a9d5..58df92a 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -214,8 +214,11 @@ namespace opengm {
          }
          else if(para_.useProjectedAdaptiveStepsize_){
             double subgradientNorm = euclideanProjectedSubGradientNorm();
-            stepsize = para_.stepsizeStride_ * fabs(acUpperBound_.value() - lowerBound_) 
-                       /subgradientNorm/subgradientNorm;
+            if(subgradientNorm == 0) // all parts agree: there is no direction to step in
+               stepsize = 0;
+            else
+               stepsize = para_.stepsizeStride_ * fabs(acUpperBound_.value() - lowerBound_) 
+                          /subgradientNorm/subgradientNorm;
          }
          else{
             double primalDualGap = fabs(acUpperBound_.value() + acNegLowerBound_.value());
-- 
2.43.0


From a4f1dc0587f6325bc399505c9173648055a8a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 097/173] fix: loading a model took the first function type for
 every type missing in the list

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 8baaf4e..cf912bc 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -461,7 +461,8 @@ void load
       //gm.numbersOfStates_.resize(serializationIndicies[2]);
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
       numberOfFunctions.resize(serializationIndicies[4]);
-      functionIndexLookup.resize(serializationIndicies[4]);
+      // function types that are not in the list keep an index that belongs to no type
+      functionIndexLookup.resize(serializationIndicies[4], GM::NrOfFunctionTypes);
       typeRegisterId.resize(serializationIndicies[4]);
       for(size_t i=0; i<numberOfFunctions.size(); ++i) {
          //const size_t fRegId=GetFunctionRegistration<GM, 0, GM::NrOfFunctionTypes, meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value>::get(i);
-- 
2.43.0


From e073f7234261700f8d1a4653eb8ed95bda7bc5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 098/173] fix: a model without variables could not be saved

---
 .../graphicalmodel/graphicalmodel_hdf5.hxx      | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index cf912bc..3262786 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -401,7 +401,7 @@ void save
          serializationIndicies[i]=
             static_cast<opengm::UInt64Type>(gm.numberOfLabels(i));
       }
-      marray::hdf5::save(group, subDatasetName, serializationIndicies);
+      if(serializationIndicies.size() != 0) marray::hdf5::save(group, subDatasetName, serializationIndicies);
    }
    serializationIndicies.clear();
 
@@ -446,6 +446,7 @@ void load
    //size_t numberOfVariables;
    bool oldFormat=false;
    opengm::UInt64Type loadValueTypeAs=0;
+   opengm::UInt64Type numberOfVariables=0;
    {
       std::string subDatasetName("header");
       marray::hdf5::load(group, subDatasetName, serializationIndicies);
@@ -458,7 +459,7 @@ void load
          throw RuntimeError("This version of the HDF5 file format is not supported by this version of OpenGM.");
       }
       //numberOfVariables=serializationIndicies[2];
-      //gm.numbersOfStates_.resize(serializationIndicies[2]);
+      numberOfVariables = serializationIndicies[2];
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
       numberOfFunctions.resize(serializationIndicies[4]);
       // function types that are not in the list keep an index that belongs to no type
@@ -505,12 +506,12 @@ void load
          }
       }
    }
-   //if(numberOfVariables != 0) {
-   std::string subDatasetName("numbers-of-states");
-   marray::hdf5::load(group, subDatasetName, serializationIndicies);
-   gm.space_.assignDense(serializationIndicies.begin(), serializationIndicies.end());
-   OPENGM_ASSERT(serializationIndicies.size() == gm.numberOfVariables());
-   //}
+   if(numberOfVariables != 0) {
+      std::string subDatasetName("numbers-of-states");
+      marray::hdf5::load(group, subDatasetName, serializationIndicies);
+      gm.space_.assignDense(serializationIndicies.begin(), serializationIndicies.end());
+      OPENGM_ASSERT(serializationIndicies.size() == gm.numberOfVariables());
+   }
    SaveAndLoadFunctions<GM, 0, GM::NrOfFunctionTypes, opengm::meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value >::load
    (group, gm, numberOfFunctions,functionIndexLookup,useFunction,loadValueTypeAs,oldFormat);
 
-- 
2.43.0


From dbb5e76b5c387a85ca2420b821de4e75daeeec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 099/173] fix: loading into a model that is not empty kept its
 order, functions and adjacency

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 3262786..af4284d 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -459,6 +459,7 @@ void load
          throw RuntimeError("This version of the HDF5 file format is not supported by this version of OpenGM.");
       }
       //numberOfVariables=serializationIndicies[2];
+      gm = GM(); // nothing of what the model contained before is kept
       numberOfVariables = serializationIndicies[2];
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
       numberOfFunctions.resize(serializationIndicies[4]);
-- 
2.43.0


From 55416fdcdfb29a8a8a4e8699d9b96d591e85e532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 100/173] fix: the legacy model converter did not compile
 against the current GraphicalModel

---
 src/converter/opengm1TOopengm2.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/converter/opengm1TOopengm2.cxx b/src/converter/opengm1TOopengm2.cxx
index 750c626..0d8292d 100644
--- a/src/converter/opengm1TOopengm2.cxx
+++ b/src/converter/opengm1TOopengm2.cxx
@@ -48,8 +48,7 @@ struct ConcreteConverterDispatcher : ConverterDispatcher {
          ValueType,
          OperationType,
          typename opengm::meta::TypeListGenerator< opengm::ExplicitFunction<ValueType> >::type,
-         opengm::DiscreteSpace<IndexType, LabelType>,
-         false
+         opengm::DiscreteSpace<IndexType, LabelType>
       > GmType;
       typedef opengm::ExplicitFunction<ValueType> ExplicitFunctionType;
       typedef typename GmType::FunctionIdentifier FunctionIdentifier;
-- 
2.43.0


From 9e355732dbbad415aac2df8ee35840966a2d2008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 101/173] fix: the legacy model converter shared a table
 between factors of different shapes

---
 src/converter/opengm1TOopengm2.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/converter/opengm1TOopengm2.cxx b/src/converter/opengm1TOopengm2.cxx
index 0d8292d..e10f5d5 100644
--- a/src/converter/opengm1TOopengm2.cxx
+++ b/src/converter/opengm1TOopengm2.cxx
@@ -96,8 +96,11 @@ struct ConcreteConverterDispatcher : ConverterDispatcher {
             // linear scan (perhaps replace by some tree structured thing some time...) of the cache
             bool found=false;
             for (size_t ci=0; ci<cache.size(); ++ci) {
-               if (cache[ci].first.size() == ef.size()) {
-                  if (std::equal(cache[ci].first.begin(), cache[ci].first.end(), ef.begin())) {
+               if (cache[ci].first.size() == ef.size() && cache[ci].first.dimension() == ef.dimension()) {
+                  bool sameShape = true;
+                  for (size_t d=0; d<ef.dimension(); ++d) 
+                     sameShape = sameShape && cache[ci].first.shape(d) == ef.shape(d);
+                  if (sameShape && std::equal(cache[ci].first.begin(), cache[ci].first.end(), ef.begin())) {
                      found = true;
                      gm.addFactor(cache[ci].second, variableIndicesOfFactor.begin(), variableIndicesOfFactor.end());
                      break;
-- 
2.43.0


From 98cf3991af84e4d9741837276e115249a872d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 102/173] fix: uai2opengm did not end for a factor without
 variables

---
 src/converter/uai2opengm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/uai2opengm.cxx b/src/converter/uai2opengm.cxx
index e828e58..bb7f28e 100644
--- a/src/converter/uai2opengm.cxx
+++ b/src/converter/uai2opengm.cxx
@@ -284,7 +284,7 @@ void ind2sub(T& sub, const U ind, const V& sizes) {
    sub.clear();
    sub.reserve(sizes.size());
    U remainingInd = ind;
-   for(size_t i = 0; i < sizes.size() - 1; i++) {
+   for(size_t i = 0; i + 1 < sizes.size(); i++) {
       size_t numSubentries = 1;
       for(size_t j = i + 1; j < sizes.size(); j++) {
          numSubentries *= sizes[j];
-- 
2.43.0


From d6789ef22ea43ae6c6bba02ad273d704271c2b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 103/173] fix: opengm2wudag wrote constant factors as edges
 between variables they do not have

---
 src/converter/opengm2wudag.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/converter/opengm2wudag.cxx b/src/converter/opengm2wudag.cxx
index 9a03979..bab1c9e 100644
--- a/src/converter/opengm2wudag.cxx
+++ b/src/converter/opengm2wudag.cxx
@@ -50,6 +50,7 @@ main(int argc, const char* argv[] ) {
 
    //check model and calculate constant
    ValueType constValue = 0;
+   IndexType numEdges = 0;
    for(IndexType f=0; f<gm.numberOfFactors();++f){
       if(gm[f].numberOfVariables() == 0){
          LabelType l0 =0;
@@ -57,6 +58,7 @@ main(int argc, const char* argv[] ) {
       }
       else if(gm[f].numberOfVariables() == 2){
          constValue += gm[f](l00);
+         ++numEdges;
       }
       else{
          std::cout << "ERROR: Unsupported factor order !!!" << std::endl;
@@ -66,8 +68,10 @@ main(int argc, const char* argv[] ) {
    
    std::ofstream outputFile;
    outputFile.open(outfile.c_str());
-   outputFile << "  "<< gm.numberOfVariables() << " " << gm.numberOfFactors() << " "<< std::setprecision(20) << constValue << std::endl;
+   outputFile << "  "<< gm.numberOfVariables() << " " << numEdges << " "<< std::setprecision(20) << constValue << std::endl;
    for(IndexType f=0; f<gm.numberOfFactors();++f){
+      if(gm[f].numberOfVariables() == 0)
+         continue;
       IndexType vars[] = {0,0};
       vars[0] = gm[f].variableIndex(0);
       vars[1] = gm[f].variableIndex(1);
-- 
2.43.0


From 0292fdb310704ae7a0f1afb013dd343018ba3bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 104/173] fix: the matching converters used the last record
 twice when the file ends with a line break

---
 src/converter/matching2opengm-N2N.cxx | 3 +--
 src/converter/matching2opengm.cxx     | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/converter/matching2opengm-N2N.cxx b/src/converter/matching2opengm-N2N.cxx
index 9e6b9f0..fc6477a 100644
--- a/src/converter/matching2opengm-N2N.cxx
+++ b/src/converter/matching2opengm-N2N.cxx
@@ -86,8 +86,7 @@ int main(int argc, const char* argv[] ) {
 
    size_t countA =0; 
    size_t countE =0;
-   while(!mymatchingfile.eof()) {
-      mymatchingfile >> command;
+   while(mymatchingfile >> command) {
       if(command =='a'){++countA;
          size_t aID, pL, pR;
          ValueType v;
diff --git a/src/converter/matching2opengm.cxx b/src/converter/matching2opengm.cxx
index 64bc2b5..de61b0d 100644
--- a/src/converter/matching2opengm.cxx
+++ b/src/converter/matching2opengm.cxx
@@ -98,8 +98,7 @@ int main(int argc, const char* argv[] ) {
    std::vector<std::vector<size_t> > labels;
 
 
-   while(!mymatchingfile.eof()) {
-      mymatchingfile >> command;
+   while(mymatchingfile >> command) {
       if(command =='a'){
          ++countA;
          int aID, pL, pR;
-- 
2.43.0


From ecb3306cedd7bca48c1943b2216904cf32cefc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 105/173] fix: matching2opengm kept the index of a label in a
 bool

---
 src/converter/matching2opengm.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/matching2opengm.cxx b/src/converter/matching2opengm.cxx
index de61b0d..ae8c10b 100644
--- a/src/converter/matching2opengm.cxx
+++ b/src/converter/matching2opengm.cxx
@@ -174,7 +174,7 @@ int main(int argc, const char* argv[] ) {
             const size_t feat = assignments[i].first;
             //check if label exists
             bool collision = false;
-            bool label     = 0;
+            size_t label   = 0;
             for(size_t j=0; j<labels[var].size();++j)
                if(labels[var][j] == feat){
                   collision = true;
@@ -211,7 +211,7 @@ int main(int argc, const char* argv[] ) {
             const size_t var  = it->second;
             const size_t feat = assignments[i].second;
             bool collision= false; 
-            bool label     = 0;
+            size_t label   = 0;
             for(size_t j=0; j<labels[ it->second].size();++j)
                if(labels[var][j] == feat){
                   collision = true;   
-- 
2.43.0


From 4198e23bfd3d11ed2e7c75f3b5b45106d4788a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 106/173] fix: matching2opengm wrote outside of a table for an
 edge whose first variable has the larger index

---
 src/converter/matching2opengm.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/converter/matching2opengm.cxx b/src/converter/matching2opengm.cxx
index ae8c10b..83fbeac 100644
--- a/src/converter/matching2opengm.cxx
+++ b/src/converter/matching2opengm.cxx
@@ -294,7 +294,9 @@ int main(int argc, const char* argv[] ) {
    }
    for(size_t i=0; i<edges.size(); ++i){
       //std::cout << assignmentsVar[edges[i].first].first << " " << assignmentsVar[edges[i].second].first <<std::endl;
-      Adj[assignmentsVar[edges[i].first].first][assignmentsVar[edges[i].second].first] = 1;
+      const size_t var1 = assignmentsVar[edges[i].first].first;
+      const size_t var2 = assignmentsVar[edges[i].second].first;
+      Adj[std::min(var1,var2)][std::max(var1,var2)] = 1;
    }
 
    for(size_t i=0; i<countKeyLeft; ++i)
-- 
2.43.0


From 3e0d62ac8c8e6c9716f57b05a0d1b7d8720ba5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 107/173] fix: dynamic programming with two roots in one
 component wrote outside its buffers

---
 include/opengm/inference/dynamicprogramming.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index 7247161..f244b5c 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -113,8 +113,11 @@ namespace opengm {
     size_t rootCounter=0;
     while(varCount < gm_.numberOfVariables() && orderCount < gm_.numberOfVariables()){
       if(rootCounter<para_.roots_.size()){
-        nodeOrder_[para_.roots_[rootCounter]] = orderCount++;
-        nodeList.push_back(para_.roots_[rootCounter]);
+        // a component has one root: further ones in it are ordinary nodes
+        if(nodeOrder_[para_.roots_[rootCounter]]==std::numeric_limits<std::size_t>::max()){
+          nodeOrder_[para_.roots_[rootCounter]] = orderCount++;
+          nodeList.push_back(para_.roots_[rootCounter]);
+        }
         ++rootCounter;
       }
       else{
-- 
2.43.0


From 4d94a6bce84b5f846261f0f70e915ac5fb78b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 108/173] fix: factorVariable of the LP interfaces called a
 function that does not exist for a unary factor

---
 include/opengm/inference/lpcplex.hxx  | 2 +-
 include/opengm/inference/lpgurobi.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/lpcplex.hxx b/include/opengm/inference/lpcplex.hxx
index d78f70f..df8ea1d 100644
--- a/include/opengm/inference/lpcplex.hxx
+++ b/include/opengm/inference/lpcplex.hxx
@@ -636,7 +636,7 @@ void LPCplex<GM, ACC>::factorVariable
    out.assign(var.begin(), var.end(), shape.begin(), shape.end());
    if(gm_[factorId].numberOfVariables() == 1) {
       size_t nodeId = gm_[factorId].variableIndex(0);
-      marginal(nodeId, out);
+      variable(nodeId, out);
    }
    else {
       size_t c = 0;
diff --git a/include/opengm/inference/lpgurobi.hxx b/include/opengm/inference/lpgurobi.hxx
index 671f340..a6c1e5a 100644
--- a/include/opengm/inference/lpgurobi.hxx
+++ b/include/opengm/inference/lpgurobi.hxx
@@ -769,7 +769,7 @@ void LPGurobi<GM, ACC>::factorVariable
    out.assign(var.begin(), var.end(), shape.begin(), shape.end());
    if(gm_[factorId].numberOfVariables() == 1) {
       size_t nodeId = gm_[factorId].variableIndex(0);
-      marginal(nodeId, out);
+      variable(nodeId, out);
    }
    else {
       size_t c = 0;
-- 
2.43.0


From 146d8a474f75e6b46d3ce92f389e12839ac8ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 109/173] fix: bound of the Gurobi interface left out the
 factors without variables

---
 include/opengm/inference/lpgurobi.hxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/lpgurobi.hxx b/include/opengm/inference/lpgurobi.hxx
index a6c1e5a..d49757c 100644
--- a/include/opengm/inference/lpgurobi.hxx
+++ b/include/opengm/inference/lpgurobi.hxx
@@ -251,7 +251,8 @@ private:
    GRBModel * model_;
    GRBVar   * vars_;
 
-   // 
+   // sum of the factors without variables
+   ValueType constValue_;
    ValueType bound_;
    ValueType value_;
 };
@@ -277,6 +278,7 @@ LPGurobi<GM, ACC>::LPGurobi
    env_(),
    model_(),
    vars_(),
+   constValue_(0),
    bound_(),
    value_()
 {
@@ -456,7 +458,11 @@ LPGurobi<GM, ACC>::LPGurobi
    }
    // enumerate factors
    for(size_t f = 0; f < gm_.numberOfFactors(); ++f) {
-      if(gm_[f].numberOfVariables() == 1) {
+      if(gm_[f].numberOfVariables() == 0) {
+         LabelType l = 0;
+         constValue_ += gm_[f](&l);
+      }
+      else if(gm_[f].numberOfVariables() == 1) {
          size_t node = gm_[f].variableIndex(0);
          unaryFactors_[node].push_back(f);
          idFactorsBegin_[f] = idNodesBegin_[node];
@@ -677,10 +683,10 @@ LPGurobi<GM, ACC>::infer
    try {
       model_->optimize();
       if(param_.integerConstraint_){
-           bound_ = model_->get(GRB_DoubleAttr_ObjBound);
+           bound_ = model_->get(GRB_DoubleAttr_ObjBound) + constValue_;
       }
       else{
-         bound_ = model_->get(GRB_DoubleAttr_ObjVal);
+         bound_ = model_->get(GRB_DoubleAttr_ObjVal) + constValue_;
       }
       //std::cout << "Bound: " <<bound_ << "\n";
       for(size_t lpvi=0;lpvi<nLpVar_;++lpvi){
-- 
2.43.0


From 74efe0d2c3b5671b9f22acc010450e832ca02d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 110/173] fix: addConstraint of the Gurobi interface made a
 string of a null pointer when no name was given

---
 include/opengm/inference/lpgurobi.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/lpgurobi.hxx b/include/opengm/inference/lpgurobi.hxx
index d49757c..917e336 100644
--- a/include/opengm/inference/lpgurobi.hxx
+++ b/include/opengm/inference/lpgurobi.hxx
@@ -894,8 +894,9 @@ inline void LPGurobi<GM, ACC>::addConstraint(
    }
 
    // add constraints for upper and lower bound
-   model_->addConstr(expr, GRB_LESS_EQUAL, upperBound, name);
-   model_->addConstr(expr, GRB_GREATER_EQUAL, lowerBound, name);
+   const std::string constraintName = name == 0 ? "" : name;
+   model_->addConstr(expr, GRB_LESS_EQUAL, upperBound, constraintName);
+   model_->addConstr(expr, GRB_GREATER_EQUAL, lowerBound, constraintName);
 
    // Gurobi needs a model update after adding a constraint
    dirty_ = true;
-- 
2.43.0


From ab4d7c0028a467d46187b7e7832ed3831eec3d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 111/173] fix: the limit of rows per iteration was passed when
 the loose polytope alone had reached it

---
 include/opengm/inference/lp_inference_base.hxx | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/lp_inference_base.hxx b/include/opengm/inference/lp_inference_base.hxx
index cf47706..2a0b57b 100644
--- a/include/opengm/inference/lp_inference_base.hxx
+++ b/include/opengm/inference/lp_inference_base.hxx
@@ -3006,14 +3006,11 @@ inline bool LPInferenceBase<LP_INFERENCE_TYPE>::tightenPolytope() {
       addViolatedLinearConstraintsFunctor.lpInference_ = this;
       addViolatedLinearConstraintsFunctor.numConstraintsAdded_ = numConstraintsAdded;
       addViolatedLinearConstraintsFunctor.sortedViolatedConstraintsList_ = &sortedViolatedConstraints;
-      for(size_t i = 0; i < linearConstraintFactors_.size(); ++i) {
+      for(size_t i = 0; i < linearConstraintFactors_.size() && addViolatedLinearConstraintsFunctor.numConstraintsAdded_ != parameter_.maxNumConstraintsPerIter_; ++i) {
          addViolatedLinearConstraintsFunctor.labelingBegin_ = IntegerSolutionSubsequenceIterator(currentArg.begin(), linearConstraintLPVariablesSubsequenceIndices_[i].begin());
          addViolatedLinearConstraintsFunctor.linearConstraintID_ = i;
          const IndexType currentFactor = linearConstraintFactors_[i];
          gm_[currentFactor].callFunctor(addViolatedLinearConstraintsFunctor);
-         if(addViolatedLinearConstraintsFunctor.numConstraintsAdded_ == parameter_.maxNumConstraintsPerIter_) {
-            break;
-         }
       }
 
       numConstraintsAdded = addViolatedLinearConstraintsFunctor.numConstraintsAdded_;
@@ -3149,14 +3146,11 @@ inline bool LPInferenceBase<LP_INFERENCE_TYPE>::tightenPolytopeRelaxed() {
       addViolatedLinearConstraintsRelaxedFunctor.lpInference_ = this;
       addViolatedLinearConstraintsRelaxedFunctor.numConstraintsAdded_ = numConstraintsAdded;
       addViolatedLinearConstraintsRelaxedFunctor.sortedViolatedConstraintsList_ = &sortedViolatedConstraints;
-      for(size_t i = 0; i < linearConstraintFactors_.size(); ++i) {
+      for(size_t i = 0; i < linearConstraintFactors_.size() && addViolatedLinearConstraintsRelaxedFunctor.numConstraintsAdded_ != parameter_.maxNumConstraintsPerIter_; ++i) {
          addViolatedLinearConstraintsRelaxedFunctor.labelingBegin_ = RelaxedSolutionSubsequenceIterator(relaxedArgBegin, linearConstraintLPVariablesSubsequenceIndices_[i].begin());
          addViolatedLinearConstraintsRelaxedFunctor.linearConstraintID_ = i;
          const IndexType currentFactor = linearConstraintFactors_[i];
          gm_[currentFactor].callFunctor(addViolatedLinearConstraintsRelaxedFunctor);
-         if(addViolatedLinearConstraintsRelaxedFunctor.numConstraintsAdded_ == parameter_.maxNumConstraintsPerIter_) {
-            break;
-         }
       }
 
       numConstraintsAdded = addViolatedLinearConstraintsRelaxedFunctor.numConstraintsAdded_;
-- 
2.43.0


From 9d67afd8f319febf2595b503c0f324105c21c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 112/173] fix: the weighted heuristic of the loose polytope
 added the same violated constraint for ever

---
 .../opengm/inference/lp_inference_base.hxx    | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/opengm/inference/lp_inference_base.hxx b/include/opengm/inference/lp_inference_base.hxx
index 2a0b57b..5ad58e7 100644
--- a/include/opengm/inference/lp_inference_base.hxx
+++ b/include/opengm/inference/lp_inference_base.hxx
@@ -4,6 +4,7 @@
 #include <utility>
 #include <vector>
 #include <map>
+#include <set>
 #include <list>
 #include <typeinfo>
 #include <limits>
@@ -248,6 +249,7 @@ protected:
    IndexType                       addLocalPolytopeFactorConstraintCachePreviousFactorID_;
    marray::Marray<SolverIndexType> addLocalPolytopeFactorConstraintCacheFactorLPVariableIDs_;
    InactiveConstraintsListType     inactiveConstraints_;
+   std::set<FactorIndexConstraintPointerPairType> addedLinearConstraints_;
 
    // protected member functions
    // construction
@@ -1152,6 +1154,14 @@ struct AddViolatedLinearConstraintsRelaxedFunctor {
  *         added to the LP/MIP model.
  */
 
+/*! \var LPInferenceBase::addedLinearConstraints_
+ *  \brief The linear constraints which are already part of the LP/MIP model.
+ *         With LPInferenceBase::Parameter::LoosePolytope the labeling can
+ *         violate such a constraint as long as marginalization constraints are
+ *         missing, therefore they have to be excluded from the competition for
+ *         the next constraints to add.
+ */
+
 /*! \fn LPInferenceBase::LPInferenceBase(const GraphicalModelType& gm, const Parameter& parameter = Parameter())
  *  \brief LPInferenceBase constructor.
  *
@@ -2741,6 +2751,7 @@ inline void LPInferenceBase<LP_INFERENCE_TYPE>::addIndicatorVariableConstraints(
 template <class LP_INFERENCE_TYPE>
 inline void LPInferenceBase<LP_INFERENCE_TYPE>::addLinearConstraint(const IndexType linearConstraintFactor, const LinearConstraintType& constraint) {
    OPENGM_ASSERT(linearConstraintFactor < linearConstraintsLPVariablesIndicesLookupTable_.size());
+   addedLinearConstraints_.insert(FactorIndexConstraintPointerPairType(linearConstraintFactor, &constraint));
    std::vector<SolverIndexType> lpVariables(std::distance(constraint.indicatorVariablesBegin(), constraint.indicatorVariablesEnd()));
    for(size_t i = 0; i < lpVariables.size(); ++i) {
       lpVariables[i] = linearConstraintsLPVariablesIndicesLookupTable_[linearConstraintFactor][constraint.indicatorVariablesBegin()[i]];
@@ -3390,11 +3401,13 @@ inline void AddViolatedLinearConstraintsFunctor<LP_INFERENCE_BASE_TYPE, HEURISTI
                break;
             }
          } else {
-            myself.sortedViolatedConstraintsList_->insert(typename LP_INFERENCE_BASE_TYPE::SortedViolatedConstraintsListType::value_type(*violatedConstraintsWeightsBegin, std::make_pair(myself.lpInference_->inactiveConstraints_.end(), std::make_pair(myself.linearConstraintID_, &(*violatedConstraintsBegin)))));
-            if(myself.sortedViolatedConstraintsList_->size() > myself.lpInference_->parameter_.maxNumConstraintsPerIter_) {
-               // remove constraints with to small weight
-               myself.sortedViolatedConstraintsList_->erase(myself.sortedViolatedConstraintsList_->begin());
-               OPENGM_ASSERT(myself.sortedViolatedConstraintsList_->size() == myself.lpInference_->parameter_.maxNumConstraintsPerIter_);
+            if(myself.lpInference_->addedLinearConstraints_.count(typename LP_INFERENCE_BASE_TYPE::FactorIndexConstraintPointerPairType(myself.linearConstraintID_, &(*violatedConstraintsBegin))) == 0) {
+               myself.sortedViolatedConstraintsList_->insert(typename LP_INFERENCE_BASE_TYPE::SortedViolatedConstraintsListType::value_type(*violatedConstraintsWeightsBegin, std::make_pair(myself.lpInference_->inactiveConstraints_.end(), std::make_pair(myself.linearConstraintID_, &(*violatedConstraintsBegin)))));
+               if(myself.sortedViolatedConstraintsList_->size() > myself.lpInference_->parameter_.maxNumConstraintsPerIter_) {
+                  // remove constraints with to small weight
+                  myself.sortedViolatedConstraintsList_->erase(myself.sortedViolatedConstraintsList_->begin());
+                  OPENGM_ASSERT(myself.sortedViolatedConstraintsList_->size() == myself.lpInference_->parameter_.maxNumConstraintsPerIter_);
+               }
             }
             ++violatedConstraintsBegin;
             ++violatedConstraintsWeightsBegin;
-- 
2.43.0


From 74aa5a8d464d2e392e3184be5c3a5df1424b0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 113/173] fix: multicut could not cut a higher order Potts
 factor whose variables are not connected by edges

---
 include/opengm/inference/multicut.hxx | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/multicut.hxx b/include/opengm/inference/multicut.hxx
index 196e15c..7588cd5 100644
--- a/include/opengm/inference/multicut.hxx
+++ b/include/opengm/inference/multicut.hxx
@@ -466,10 +466,33 @@ typename Multicut<GM, ACC>::LPIndexType Multicut<GM, ACC>::getNeighborhood
          else{
             OPENGM_ASSERT(false);
          }
-         higherOrderTerms.back().lpIndices_=lpIndexVector;
 
          // Check if edges need to be added to have a spanning subgraph
-         //TODO 
+         std::vector<size_t> component(gm_[f].numberOfVariables());
+         for(size_t i=0; i<component.size();++i) {
+            component[i] = i;
+            for(size_t j=0; j<i;++j) {
+               if(neighbours[gm_[f].variableIndex(i)].find(gm_[f].variableIndex(j)) != neighbours[gm_[f].variableIndex(i)].end()) {
+                  const size_t joined = component[j];
+                  std::replace(component.begin(), component.begin()+i+1, joined, component[i]);
+               }
+            }
+         }
+         for(size_t i=1; i<component.size();++i) {
+            if(component[i] != component[0]) {
+               const IndexType u = gm_[f].variableIndex(i);
+               const IndexType v = gm_[f].variableIndex(0);
+               neighbours[u][v] = numberOfTerminalEdges+numberOfInternalEdges;
+               neighbours[v][u] = numberOfTerminalEdges+numberOfInternalEdges;
+               edgeNodes.push_back(std::pair<IndexType,IndexType>(v,u));
+               lpIndexVector.push_back(numberOfTerminalEdges+numberOfInternalEdges);
+               ++numberOfInternalEdges;
+               ++numberOfAdditionalInternalEdges;
+               const size_t joined = component[i];
+               std::replace(component.begin(), component.end(), joined, static_cast<size_t>(component[0]));
+            }
+         }
+         higherOrderTerms.back().lpIndices_=lpIndexVector;
       }
    }
    //std::cout << "Additional Edges: "<<numberOfAdditionalInternalEdges<<std::endl;
-- 
2.43.0


From 3ce08a0e15251aca29947d362a5b6044391331aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 114/173] fix: multicut took 0 for the values of a fourth order
 factor with three or four parts

---
 include/opengm/inference/multicut.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/multicut.hxx b/include/opengm/inference/multicut.hxx
index 7588cd5..1e6fd52 100644
--- a/include/opengm/inference/multicut.hxx
+++ b/include/opengm/inference/multicut.hxx
@@ -627,12 +627,12 @@ Multicut<GM, ACC>::Multicut
          }
          else if(gm_[f].numberOfVariables() == 4) {
             size_t i[] = {0, 1, 2, 3 };//0
-            if(numberOfTerminals_>=4){
+            if(gm_[f].numberOfLabels(0)>=4){
                valuesHigherOrder.push_back(gm_[f](i));
             }else{
                valuesHigherOrder.push_back(0.0);
             }
-            if(numberOfTerminals_>=3){
+            if(gm_[f].numberOfLabels(0)>=3){
                i[0]=0; i[1]=0; i[2]=1; i[3] = 2;//1
                valuesHigherOrder.push_back(gm_[f](i));
                i[0]=0; i[1]=1; i[2]=0; i[3] = 2;//2
-- 
2.43.0


From 8db9ee3c7abc4cd8ecab71a8c4ca23933d3ccc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 115/173] fix: multicut divided by zero when the variables have
 a single label

---
 include/opengm/inference/multicut.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/inference/multicut.hxx b/include/opengm/inference/multicut.hxx
index 1e6fd52..d653b6e 100644
--- a/include/opengm/inference/multicut.hxx
+++ b/include/opengm/inference/multicut.hxx
@@ -571,6 +571,11 @@ Multicut<GM, ACC>::Multicut
       }
       else if(gm_[f].numberOfVariables() == 1) {
          IndexType node = gm_[f].variableIndex(0);
+         if(numberOfTerminals_==1) { // nothing to choose
+            LabelType l = 0;
+            constant_ += gm_[f](&l);
+            continue;
+         }
          for(LabelType i=0; i<gm_.numberOfLabels(node); ++i) {
             for(LabelType j=0; j<gm_.numberOfLabels(node); ++j) {
                if(i==j) values[node*numberOfTerminals_+i] += (1.0/(numberOfTerminals_-1)-1) * gm_[f](&j);
-- 
2.43.0


From 78b935c3d50b08d0535d2d8a4f28679ac66dc86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 116/173] fix: nearest rounding of multicut took the last label
 below the first one instead of the nearest

---
 include/opengm/inference/multicut.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/multicut.hxx b/include/opengm/inference/multicut.hxx
index d653b6e..e2d8c4e 100644
--- a/include/opengm/inference/multicut.hxx
+++ b/include/opengm/inference/multicut.hxx
@@ -2063,6 +2063,7 @@ Multicut<GM,ACC>::arg
                x[node] = 0;
                for(LabelType i=0; i<gm_.numberOfLabels(node); ++i) {
                   if(sol_[numberOfTerminals_*node+i]<v) {
+                     v = sol_[numberOfTerminals_*node+i];
                      x[node]=i;
                   }
                }
-- 
2.43.0


From 9b1e2a72ea4573420f1207acb11ce5d5230b1203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 117/173] fix: derandomized rounding of multicut tested the
 entry of another label

---
 include/opengm/inference/multicut.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/multicut.hxx b/include/opengm/inference/multicut.hxx
index e2d8c4e..cd1844d 100644
--- a/include/opengm/inference/multicut.hxx
+++ b/include/opengm/inference/multicut.hxx
@@ -2208,7 +2208,7 @@ Multicut<GM,ACC>::derandomizedRoundingSubProcedure
   
    for(size_t i=0; i<labelorder.size()-1; ++i){
       for(IndexType v=0; v<numVar; ++v){
-         if(x[v]==lastLabel && sol_[numberOfTerminals_*v+i]<=threshold){
+         if(x[v]==lastLabel && sol_[numberOfTerminals_*v+labelorder[i]]<=threshold){
             x[v]=labelorder[i];
          }
       }
-- 
2.43.0


From 3b4f9065e41ac4578312c51f828e49a803edb99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 118/173] fix: a multicut parameter taken over from another one
 left the buffering of states uninitialised and dropped the workflow

---
 include/opengm/inference/multicut.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/multicut.hxx b/include/opengm/inference/multicut.hxx
index cd1844d..1861ab0 100644
--- a/include/opengm/inference/multicut.hxx
+++ b/include/opengm/inference/multicut.hxx
@@ -161,13 +161,16 @@ public:
         verboseCPLEX_(p.verboseCPLEX_),
         cutUp_(p.cutUp_),
         timeOut_(p.timeOut_),
+        workFlow_(p.workFlow_),
         maximalNumberOfConstraintsPerRound_(p.maximalNumberOfConstraintsPerRound_),
         edgeRoundingValue_(p.edgeRoundingValue_),
         MWCRounding_(p.MWCRounding_),
         reductionMode_(p.reductionMode_),
+        allowCutsWithin_(p.allowCutsWithin_),
         useOldPriorityQueue_(p.useOldPriorityQueue_),
         useChordalSearch_(p.useChordalSearch_),
-        initializeWith3Cycles_(false)
+        useBufferedStates_(p.useBufferedStates_),
+        initializeWith3Cycles_(p.initializeWith3Cycles_)
     {};
    };
 
-- 
2.43.0


From 1848a2253b0f10da9635b22c32dc93526a8672b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 119/173] fix: multicut from edge weights kept a reference to a
 temporary model and added an uninitialised constant to the bound

---
 include/opengm/inference/multicut.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/multicut.hxx b/include/opengm/inference/multicut.hxx
index 1861ab0..319588d 100644
--- a/include/opengm/inference/multicut.hxx
+++ b/include/opengm/inference/multicut.hxx
@@ -203,6 +203,7 @@ public:
 private:
    enum ProblemType {INVALID, MC, MWC};
 
+   const GraphicalModelType emptyGm_; // the model if only weights are given
    const GraphicalModelType& gm_; 
    ProblemType problemType_;
    Parameter parameter_;
@@ -309,7 +310,7 @@ Multicut<GM, ACC>::Multicut
    const size_t numNodes, 
    const std::map<UInt64Type, ValueType> & accWeights,
    const Parameter & para
-   ) : gm_(GM()), parameter_(para) , bound_(-std::numeric_limits<double>::infinity()), infinity_(1e8), integerMode_(false),
+   ) : gm_(emptyGm_), parameter_(para) , constant_(0), bound_(-std::numeric_limits<double>::infinity()), infinity_(1e8), integerMode_(false),
        EPS_(1e-8)
 {
    if(typeid(ACC) != typeid(opengm::Minimizer) || typeid(OperatorType) != typeid(opengm::Adder)) {
-- 
2.43.0


From 779a4206f175bc092dbd5ae9f24f1a0bbe07d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 120/173] fix: multicut accepted reduction mode 0, which leaves
 higher order Potts terms unconstrained

---
 include/opengm/inference/multicut.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/multicut.hxx b/include/opengm/inference/multicut.hxx
index 319588d..c7f576a 100644
--- a/include/opengm/inference/multicut.hxx
+++ b/include/opengm/inference/multicut.hxx
@@ -316,7 +316,7 @@ Multicut<GM, ACC>::Multicut
    if(typeid(ACC) != typeid(opengm::Minimizer) || typeid(OperatorType) != typeid(opengm::Adder)) {
       throw RuntimeError("This implementation does only supports Min-Plus-Semiring.");
    } 
-   if(parameter_.reductionMode_<0 ||parameter_.reductionMode_>3) {
+   if(parameter_.reductionMode_<1 ||parameter_.reductionMode_>3) {
       throw RuntimeError("Reduction Mode has to be 1, 2 or 3!");
    } 
 
@@ -519,7 +519,7 @@ Multicut<GM, ACC>::Multicut
    if(typeid(ACC) != typeid(opengm::Minimizer) || typeid(OperatorType) != typeid(opengm::Adder)) {
       throw RuntimeError("This implementation does only supports Min-Plus-Semiring.");
    } 
-   if(parameter_.reductionMode_<0 ||parameter_.reductionMode_>3) {
+   if(parameter_.reductionMode_<1 ||parameter_.reductionMode_>3) {
       throw RuntimeError("Reduction Mode has to be 1, 2 or 3!");
    } 
 
-- 
2.43.0


From 795faaad3a5bd1d85507b568783d3b0ea6897ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 121/173] fix: integer terminal triangle constraints of
 multicut were separated for buffered or derandomised labels

---
 include/opengm/inference/multicut.hxx | 37 +++++++++++++++++----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/include/opengm/inference/multicut.hxx b/include/opengm/inference/multicut.hxx
index c7f576a..4747848 100644
--- a/include/opengm/inference/multicut.hxx
+++ b/include/opengm/inference/multicut.hxx
@@ -264,6 +264,7 @@ private:
                         std::vector<IndexType>&, opengm::ChangeablePriorityQueue<double>&,
                         const double = std::numeric_limits<double>::infinity(), bool = true) const;
 
+   InferenceTermination nearestRounding(std::vector<LabelType>&) const;
    InferenceTermination derandomizedRounding(std::vector<LabelType>&) const;
    InferenceTermination pseudoDerandomizedRounding(std::vector<LabelType>&, size_t = 1000) const;
    double derandomizedRoundingSubProcedure(std::vector<LabelType>&,const std::vector<LabelType>&, const double) const;
@@ -1871,7 +1872,7 @@ Multicut<GM,ACC>::infer(VisitorType& mcv)
                   throw RuntimeError("Error: Calling integer terminal triangle constraint (TTC-I) seperation provedure before switching in integer mode (IC)"); 
                }
                if(parameter_.verbose_) std::cout << "* Add integer terminal triangle constraints: " << std::flush;
-               arg(conf);
+               nearestRounding(conf); // the labels of the current solution, whatever arg() returns
                n = findIntegerTerminalTriangleConstraints(constraint, conf);
                if(parameter_.verbose_) std::cout << n  << std::endl;
                protocol_ID = Protocol_ID_TTC;
@@ -2061,18 +2062,7 @@ Multicut<GM,ACC>::arg
 
       if(problemType_ == MWC) {
          if(parameter_.MWCRounding_== parameter_.NEAREST){
-            x.resize(gm_.numberOfVariables());
-            for(IndexType node = 0; node<gm_.numberOfVariables(); ++node) {
-               double v = sol_[numberOfTerminals_*node+0];
-               x[node] = 0;
-               for(LabelType i=0; i<gm_.numberOfLabels(node); ++i) {
-                  if(sol_[numberOfTerminals_*node+i]<v) {
-                     v = sol_[numberOfTerminals_*node+i];
-                     x[node]=i;
-                  }
-               }
-            }
-            return NORMAL;
+            return nearestRounding(x);
          }
          else if(parameter_.MWCRounding_==Parameter::DERANDOMIZED){
             return derandomizedRounding(x);
@@ -2101,6 +2091,27 @@ Multicut<GM,ACC>::getSegmentation() const {
 }
 
 
+template <class GM, class ACC>
+InferenceTermination
+Multicut<GM,ACC>::nearestRounding
+(
+   std::vector<typename Multicut<GM,ACC>::LabelType>& x
+   ) const
+{
+   x.resize(gm_.numberOfVariables());
+   for(IndexType node = 0; node<gm_.numberOfVariables(); ++node) {
+      double v = sol_[numberOfTerminals_*node+0];
+      x[node] = 0;
+      for(LabelType i=0; i<gm_.numberOfLabels(node); ++i) {
+         if(sol_[numberOfTerminals_*node+i]<v) {
+            v = sol_[numberOfTerminals_*node+i];
+            x[node]=i;
+         }
+      }
+   }
+   return NORMAL;
+}
+
 template <class GM, class ACC>
 InferenceTermination
 Multicut<GM,ACC>::pseudoDerandomizedRounding
-- 
2.43.0


From 23ee8bf968e16f59a0442d4fed273a7c6a47b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 122/173] fix: QPBO released its arrays with delete instead of
 delete[]

---
 include/opengm/inference/external/qpbo.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/external/qpbo.hxx b/include/opengm/inference/external/qpbo.hxx
index 7148bb9..6add7a4 100644
--- a/include/opengm/inference/external/qpbo.hxx
+++ b/include/opengm/inference/external/qpbo.hxx
@@ -169,8 +169,8 @@ namespace opengm {
       template<class GM>
       QPBO<GM>
       ::~QPBO() {
-         delete label_;
-         delete defaultLabel_;
+         delete[] label_;
+         delete[] defaultLabel_;
 		 delete qpbo_;
       }
 
@@ -236,7 +236,7 @@ namespace opengm {
             qpbo_->Probe(new_mapping, options);
             qpbo_->MergeMappings(gm_.numberOfVariables(), mapping, new_mapping);
             qpbo_->ComputeWeakPersistencies();
-            delete new_mapping;
+            delete[] new_mapping;
 
             // Read out entire labelling again (as weak persistencies may have changed)
             countUnlabel = 0;
@@ -268,7 +268,7 @@ namespace opengm {
 
             // Run QPBO-I
             qpbo_->Improve(countUnlabel, improve_order);
-            delete improve_order;
+            delete[] improve_order;
 
             // Read out the labels
             for(int i = 0; i < countUnlabel; ++i) {
@@ -277,8 +277,8 @@ namespace opengm {
          }
        
          visitor.end(*this);
-         delete mapping;
-	 delete listUnlabel;
+         delete[] mapping;
+	 delete[] listUnlabel;
          return NORMAL;
       }
 
-- 
2.43.0


From de132cbb95bcb5db8fc8a785f26c9bb136699fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 123/173] fix: the bound of QPBO left out the factors without
 variables

---
 include/opengm/inference/external/qpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/external/qpbo.hxx b/include/opengm/inference/external/qpbo.hxx
index 6add7a4..efca07d 100644
--- a/include/opengm/inference/external/qpbo.hxx
+++ b/include/opengm/inference/external/qpbo.hxx
@@ -153,7 +153,7 @@ namespace opengm {
          qpbo_->AddNode(numVariables); // add two nodes
          for(size_t j = 0; j < gm_.numberOfFactors(); ++j) {
             if(gm_[j].numberOfVariables() == 0) {
-               ; //constTerm_+= gm_[j](0);
+               constTerm_ += gm_[j](vec0);
             }
             else if(gm_[j].numberOfVariables() == 1) {
                qpbo_->AddUnaryTerm((int) (gm_[j].variableIndex(0)), gm_[j](vec0), gm_[j](vec1));
-- 
2.43.0


From 5503b9273d28425bd409ee95dd46ea2500397f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 124/173] fix: QPBO reported unlabelled variables as having
 label 1

---
 include/opengm/inference/external/qpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/external/qpbo.hxx b/include/opengm/inference/external/qpbo.hxx
index efca07d..34aee40 100644
--- a/include/opengm/inference/external/qpbo.hxx
+++ b/include/opengm/inference/external/qpbo.hxx
@@ -310,7 +310,7 @@ namespace opengm {
             arg.resize(gm_.numberOfVariables(), TBX);
             for(int i = 0; i < gm_.numberOfVariables(); ++i) {
                if(label_[i] < 0) arg[i] = TBX;
-               if(label_[i] == 0) arg[i] = TB0;
+               else if(label_[i] == 0) arg[i] = TB0;
                else arg[i] = TB1;
             }
             return NORMAL;
-- 
2.43.0


From 10ea9cdebab4f6f4a6d350cbb53987306e2e920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 125/173] fix: QPBO parameters taken over from others lost the
 default labelling

---
 include/opengm/inference/external/qpbo.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/external/qpbo.hxx b/include/opengm/inference/external/qpbo.hxx
index 34aee40..bd5af5f 100644
--- a/include/opengm/inference/external/qpbo.hxx
+++ b/include/opengm/inference/external/qpbo.hxx
@@ -64,7 +64,8 @@ namespace opengm {
             :
                 strongPersistency_(p.strongPersistency_),
                 useImproveing_ (p.useImproveing_),
-                useProbeing_ (p.useProbeing_)
+                useProbeing_ (p.useProbeing_),
+                label_ (p.label_)
             {
 
             }
-- 
2.43.0


From 8b800663846be4a2e31a9f542a22e0241026dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 126/173] fix: improving after probing started QPBO from the
 labels of other variables

---
 include/opengm/inference/external/qpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/external/qpbo.hxx b/include/opengm/inference/external/qpbo.hxx
index bd5af5f..286785e 100644
--- a/include/opengm/inference/external/qpbo.hxx
+++ b/include/opengm/inference/external/qpbo.hxx
@@ -255,7 +255,7 @@ namespace opengm {
             // Set the labels to the user-defined value
             for(size_t i = 0; static_cast<int>(i) < countUnlabel; i++) {
                improve_order[i] = mapping[listUnlabel[i]] / 2;
-               qpbo_->SetLabel(improve_order[i], defaultLabel_[improve_order[i]]);
+               qpbo_->SetLabel(improve_order[i], (defaultLabel_[listUnlabel[i]] + mapping[listUnlabel[i]]) % 2);
             }
 
             // Randomize order
-- 
2.43.0


From 0a107c1be4fc897b1ae950a4646b14e1f2e20618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 127/173] fix: HQPBO did not override arg, so that value()
 evaluated an empty labelling, and had no bound()

---
 include/opengm/inference/hqpbo.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/hqpbo.hxx b/include/opengm/inference/hqpbo.hxx
index a621ef0..250f0f0 100644
--- a/include/opengm/inference/hqpbo.hxx
+++ b/include/opengm/inference/hqpbo.hxx
@@ -58,7 +58,8 @@ public:
    InferenceTermination infer();
    template<class VISITOR>
       InferenceTermination infer(VISITOR &);
-   InferenceTermination arg(std::vector<LabelType>&, const size_t& = 1) const;
+   InferenceTermination arg(std::vector<LabelType>&, const size_t = 1) const;
+   ValueType bound() const { return bound_; }
    void setStartingPoint(typename std::vector<LabelType>::const_iterator begin );
 private:
    const GraphicalModelType& gm_;
@@ -86,6 +87,7 @@ HQPBO<GM,ACC>::HQPBO
 )
    :  gm_(gm), constV_(0.0), conf_(std::vector<LabelType>(gm.numberOfVariables(),0))
 {
+   ACC::ineutral(bound_);
    hoe_.AddVars(gm_.numberOfVariables());
    for (IndexType f = 0; f < gm_.numberOfFactors(); ++f)
    {
@@ -223,7 +225,7 @@ inline InferenceTermination
 HQPBO<GM,ACC>::arg
 (
    std::vector<LabelType>& arg,
-   const size_t& n
+   const size_t n
    ) const
 {
    if(n > 1) {
-- 
2.43.0


From 864b98a58c07fc77eee155026edc7e38adba0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 128/173] fix: HQPBO accepted models with more than two labels

---
 include/opengm/inference/hqpbo.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/opengm/inference/hqpbo.hxx b/include/opengm/inference/hqpbo.hxx
index 250f0f0..06e014c 100644
--- a/include/opengm/inference/hqpbo.hxx
+++ b/include/opengm/inference/hqpbo.hxx
@@ -88,6 +88,16 @@ HQPBO<GM,ACC>::HQPBO
    :  gm_(gm), constV_(0.0), conf_(std::vector<LabelType>(gm.numberOfVariables(),0))
 {
    ACC::ineutral(bound_);
+   for (IndexType v = 0; v < gm_.numberOfVariables(); ++v)
+   {
+      if (gm_.numberOfLabels(v) != 2)
+         throw RuntimeError("This implementation of HQPBO supports only binary variables.");
+   }
+   for (IndexType f = 0; f < gm_.numberOfFactors(); ++f)
+   {
+      if (gm_[f].numberOfVariables() > 10)
+         throw RuntimeError("This implementation of HQPBO supports only factors of order <= 10.");
+   }
    hoe_.AddVars(gm_.numberOfVariables());
    for (IndexType f = 0; f < gm_.numberOfFactors(); ++f)
    {
-- 
2.43.0


From 3a65b4138f6f699f415809636186f0c060b62a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 129/173] fix: the bound of MQPBO was uninitialised without
 rounds of multilabel QPBO

---
 include/opengm/inference/mqpbo.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/mqpbo.hxx b/include/opengm/inference/mqpbo.hxx
index 44ee5e0..e2d8c85 100644
--- a/include/opengm/inference/mqpbo.hxx
+++ b/include/opengm/inference/mqpbo.hxx
@@ -144,6 +144,7 @@ namespace opengm {
       param_(parameter),
       scale(1)
    {
+      ACC::ineutral(bound_);
       for(size_t j = 0; j < gm_.numberOfFactors(); ++j) {
          if(gm_[j].numberOfVariables() > 2) {
             throw RuntimeError("This implementation of MQPBO supports only factors of order <= 2.");
-- 
2.43.0


From fa642c4b16ac217d7924c64b9101048edc21c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 130/173] fix: Kovtun's method in MQPBO read labels a variable
 does not have

---
 include/opengm/inference/mqpbo.hxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/mqpbo.hxx b/include/opengm/inference/mqpbo.hxx
index e2d8c85..ca86371 100644
--- a/include/opengm/inference/mqpbo.hxx
+++ b/include/opengm/inference/mqpbo.hxx
@@ -270,6 +270,8 @@ namespace opengm {
             const LabelType numLabels =  gm_[f].numberOfLabels(0);
             const IndexType var = gm_[f].variableIndex(0);
             
+            if(guess >= numLabels)
+               continue;
             ValueType v0 = gm_[f](&guess);
             ValueType v1; ACC::neutral(v1);
             for(LabelType i=0; i<guess; ++i)
@@ -282,20 +284,31 @@ namespace opengm {
             const IndexType var0 = gm_[f].variableIndex(0);
             const IndexType var1 = gm_[f].variableIndex(1); 
             
+            const bool has0 = guess < gm_[f].numberOfLabels(0);
+            const bool has1 = guess < gm_[f].numberOfLabels(1);
             LabelType c[2] = {guess,guess};
             LabelType c2[2] = {0,1};
+            if(!has0 || !has1){
+               c[0] = c[1] = 0;
+            }
 
             ValueType v00 = gm_[f](c);
             ValueType v01 = gm_[f](c2);
             ValueType v10 = v01; 
             ValueType v11 = std::min(v00,v01);
-            AddPairwiseTerm(var0, var1,v00,v01,v10,v11);
+            // a variable without the guessed label has another one
+            if(has0 && has1)
+               AddPairwiseTerm(var0, var1,v00,v01,v10,v11);
+            else if(has0)
+               AddUnaryTerm(var0, v01, v11);
+            else if(has1)
+               AddUnaryTerm(var1, v10, v11);
          }
       }
       qpbo_->MergeParallelEdges();
       qpbo_->Solve();
       for(IndexType var=0; var<gm_.numberOfVariables();++var){
-         if(qpbo_->GetLabel(var)==0){
+         if(guess < gm_.numberOfLabels(var) && qpbo_->GetLabel(var)==0){
             for(LabelType l=0; l<gm_.numberOfLabels(var); ++l){
                partialOptimality_[var][l] =opengm::Tribool::False;   
             } 
-- 
2.43.0


From b7f654c8a6f7e7067f5b5db442f8b85495862b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 131/173] fix: alpha expansion by fusion lost the starting
 labels of parameters taken over from others

---
 include/opengm/inference/alphaexpansionfusion.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphaexpansionfusion.hxx b/include/opengm/inference/alphaexpansionfusion.hxx
index 9c26741..4c5686f 100644
--- a/include/opengm/inference/alphaexpansionfusion.hxx
+++ b/include/opengm/inference/alphaexpansionfusion.hxx
@@ -68,7 +68,7 @@ public:
             randSeedOrder_(p.randSeedOrder_),
             randSeedLabel_(p.randSeedLabel_),
             labelOrder_(p.labelOrder_),
-            label_(p.labelOrder_)
+            label_(p.label_)
         {}
 
         size_t maxNumberOfSteps_;
-- 
2.43.0


From 8a69a4ca8f1e198a31da3fd49fddcc8ab53302ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 132/173] fix: the locally optimal start of alpha expansion by
 fusion took the factor's index for the variable's

---
 include/opengm/inference/alphaexpansionfusion.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/alphaexpansionfusion.hxx b/include/opengm/inference/alphaexpansionfusion.hxx
index 4c5686f..438ef4f 100644
--- a/include/opengm/inference/alphaexpansionfusion.hxx
+++ b/include/opengm/inference/alphaexpansionfusion.hxx
@@ -567,10 +567,12 @@ AlphaExpansionFusion<GM, ACC>::setInitialLabelLocalOptimal() {
       if(gm_[i].numberOfVariables()==1) {
          std::vector<size_t> state(1, 0);
          ValueType value = gm_[i](state.begin());
-         for(state[0]=1; state[0]<gm_.numberOfLabels(i); ++state[0]) {
+         const IndexType var = gm_[i].variableIndex(0);
+         label_[var] = 0;
+         for(state[0]=1; state[0]<gm_.numberOfLabels(var); ++state[0]) {
             if(AccumulationType::bop(gm_[i](state.begin()), value)) {
                value = gm_[i](state.begin());
-               label_[i] = state[0];
+               label_[var] = state[0];
             }
          }
       }
-- 
2.43.0


From 5274704b8f5749da3d9a0e5235a60572176e9547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 133/173] fix: alpha expansion by fusion gave variables labels
 they do not have

---
 include/opengm/inference/alphaexpansionfusion.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/alphaexpansionfusion.hxx b/include/opengm/inference/alphaexpansionfusion.hxx
index 438ef4f..1e04180 100644
--- a/include/opengm/inference/alphaexpansionfusion.hxx
+++ b/include/opengm/inference/alphaexpansionfusion.hxx
@@ -316,7 +316,7 @@ AlphaExpansionFusion<GM, ACC>::infer
          } else if (size == 1) {
             IndexType var = gm_[f].variableIndex(0);
             ValueType e0 = gm_[f](&label_[var]);
-            ValueType e1 = gm_[f](&alpha_);
+            ValueType e1 = alpha_ < gm_.numberOfLabels(var) ? gm_[f](&alpha_) : e0;
             hoe.AddUnaryTerm(var, e1 - e0);
          } else {
 
@@ -333,7 +333,7 @@ AlphaExpansionFusion<GM, ACC>::infer
                for (unsigned int i = 0; i < size; ++i) {
                   // only true for each second assigment?!?
                   //if (    assignment%2 ==  (std::pow(2,i))%2  )
-                  if (assignment & (1 << i)) { 
+                  if ((assignment & (1 << i)) && alpha_ < gm_[f].numberOfLabels(i)) { 
                      cliqueLabels[i] = alpha_;
                   } else {
                      cliqueLabels[i] = label_[gm_[f].variableIndex(i)];
@@ -374,7 +374,7 @@ AlphaExpansionFusion<GM, ACC>::infer
       IndexType numberOfChangedVariables = 0;
       for (IndexType i = 0; i < gm_.numberOfVariables(); ++i) {
          int label = qr.GetLabel(i);
-         if (label == 1) {
+         if (label == 1 && alpha_ < gm_.numberOfLabels(i)) {
             label_[i] = alpha_;
             ++numberOfChangedVariables;
          } 
-- 
2.43.0


From 77a2299643970205532ff14ebf5ec8e9043b0fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 134/173] fix: the bounds of higher order roof duality left out
 the constants of the factors

---
 include/opengm/inference/hqpbo.hxx            | 5 +++++
 include/opengm/inference/reducedinference.hxx | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/include/opengm/inference/hqpbo.hxx b/include/opengm/inference/hqpbo.hxx
index 06e014c..360e924 100644
--- a/include/opengm/inference/hqpbo.hxx
+++ b/include/opengm/inference/hqpbo.hxx
@@ -115,6 +115,7 @@ HQPBO<GM,ACC>::HQPBO
          const ValueType e0 = gm_[f](&l0);
          const ValueType e1 = gm_[f](&l1);
          hoe_.AddUnaryTerm(var, e1 - e0);
+         constV_ += e0;
       }
       else
       {
@@ -143,6 +144,10 @@ HQPBO<GM,ACC>::HQPBO
                }
             }
             ValueType energy = gm_[f](cliqueLabels);
+            if (assignment == 0)
+            {
+               constV_ += energy;
+            }
             for (unsigned int subset = 1; subset < numAssignments; ++subset)
             {
                if (assignment & ~subset)
diff --git a/include/opengm/inference/reducedinference.hxx b/include/opengm/inference/reducedinference.hxx
index c533fa6..09b928b 100644
--- a/include/opengm/inference/reducedinference.hxx
+++ b/include/opengm/inference/reducedinference.hxx
@@ -272,6 +272,7 @@ namespace opengm {
 	const ValueType e0 = gm_[f](&l0);
 	const ValueType e1 = gm_[f](&l1);
 	hoe.AddUnaryTerm(var, e1 - e0);
+	constV += e0;
       } else {
 	unsigned int numAssignments = 1 << size;
 	AutoDeleteArray<ValueType> coeffs_array(new ValueType[numAssignments]);
@@ -292,6 +293,9 @@ namespace opengm {
 	    }
 	  }
 	  ValueType energy = gm_[f](cliqueLabels);
+	  if (assignment == 0) {
+	    constV += energy;
+	  }
 	  for (unsigned int subset = 1; subset < numAssignments; ++subset){
 	    if (assignment & ~subset) {
 	      continue;
-- 
2.43.0


From e3d25e327d07c0e9f893f667508c08bffc53af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 135/173] fix: graph cut announced fewer edges than third order
 factors need

---
 include/opengm/inference/graphcut.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index ea45a2c..4920746 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -108,7 +108,7 @@ inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
    numVariables_ = numVariables;
    numFacDim_ = numFacDim;
    numFacDim_.resize(4);
-   minStCut_ = new MinStCutType(2 + numVariables_ + numFacDim_[3], 2*numVariables_ + numFacDim_[2] + 3*numFacDim_[3]);
+   minStCut_ = new MinStCutType(2 + numVariables_ + numFacDim_[3], 2*(numVariables_ + numFacDim_[3]) + numFacDim_[2] + 6*numFacDim_[3]);
    sEdges_.assign(numVariables_ + numFacDim_[3], 0);
    tEdges_.assign(numVariables_ + numFacDim_[3], 0);
    inferenceDone_=false;
@@ -146,7 +146,7 @@ inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
       ++numFacDim_[gm[j].numberOfVariables()];
    }
 
-   minStCut_ = new MinStCutType(2 + numVariables_ + numFacDim_[3], 2*numVariables_ + numFacDim_[2] + 3*numFacDim_[3]);
+   minStCut_ = new MinStCutType(2 + numVariables_ + numFacDim_[3], 2*(numVariables_ + numFacDim_[3]) + numFacDim_[2] + 6*numFacDim_[3]);
    sEdges_.assign(numVariables_ + numFacDim_[3], 0);
    tEdges_.assign(numVariables_ + numFacDim_[3], 0);
 
-- 
2.43.0


From fe4ed7841a8fca81f9ec7c4563afc77653f1130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 136/173] fix: the moves of alpha expansion and swap announced
 no pairwise edges to graph cut

---
 include/opengm/inference/alphabetaswap.hxx  | 5 +++++
 include/opengm/inference/alphaexpansion.hxx | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 9e6268b..3bc3948 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -221,6 +221,11 @@ AlphaBetaSwap<GM, INF>::infer
       increment();
       size_t counter = 0;
       std::vector<size_t> numFacDim(4, 0);
+      for(size_t k=0 ; k<gm_.numberOfFactors() ; ++k) {
+         if(gm_[k].numberOfVariables() == 2) {
+            ++numFacDim[2];
+         }
+      }
       for (size_t i = 0; i < numberOfVariables; ++i) {
          if (label_[i] == alpha_ || label_[i] == beta_) {
             variable2Node[i] = counter++;
diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 105bfb1..099ba72 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -306,6 +306,11 @@ AlphaExpansion<GM, INF>::infer
    LabelType vecXX[2];
    while(it++ < parameter_.maxNumberOfSteps_ && countUnchanged < maxState_ && exitInf == false) {
       std::vector<size_t> numFacDim(4, 0);
+      for(size_t k=0 ; k<gm_.numberOfFactors() ; ++k) {
+         if(gm_[k].numberOfVariables() == 2) {
+            ++numFacDim[2];
+         }
+      }
       INF inf(numberOfVariables, numFacDim, parameter_.parameter_);
       size_t countAlphas = 0;
       for (size_t k=0 ; k<gm_.numberOfVariables(); ++k) {
-- 
2.43.0


From c16ddf643ae7b3eb129fbb801853ec40cf5312b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 137/173] fix: infinite costs became negative capacities in the
 IBFS min-cut adapter

---
 include/opengm/inference/auxiliary/minstcutibfs.hxx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/auxiliary/minstcutibfs.hxx b/include/opengm/inference/auxiliary/minstcutibfs.hxx
index f5fba2d..1915b67 100644
--- a/include/opengm/inference/auxiliary/minstcutibfs.hxx
+++ b/include/opengm/inference/auxiliary/minstcutibfs.hxx
@@ -4,6 +4,7 @@
 
 #include <queue> 
 #include <cassert>
+#include <limits>
 #include "ibfs.h"
 
 namespace opengm {
@@ -26,6 +27,12 @@ namespace opengm {
       void calculateCut(std::vector<bool>&);
       
     private: 
+      // the library takes integer capacities; larger (e.g. infinite) costs are cut off
+      static int capacity(ValueType cost) {
+	const int limit = std::numeric_limits<int>::max() / 4;
+	const ValueType scaled = cost * 10000;
+	return scaled < static_cast<ValueType>(limit) ? static_cast<int>(scaled) : limit;
+      }
       // Members
       graph_type* graph_;
       size_t      numberOfNodes_;
@@ -64,13 +71,13 @@ namespace opengm {
       assert(cost >= 0);
       if(n1==S) {
 	//graph_->add_tweights( n2-2,   /* capacities */  cost, 0);
-	graph_->addNode( (int)(n2-2),   /* capacities */  (int)(cost*10000), 0);
+	graph_->addNode( (int)(n2-2),   /* capacities */  capacity(cost), 0);
       }else if(n2==T) {
 	//graph_->add_tweights( n1-2,   /* capacities */  0, cost);
-	graph_->addNode( (int)(n1-2),   /* capacities */  0, (int)(cost*10000));
+	graph_->addNode( (int)(n1-2),   /* capacities */  0, capacity(cost));
       }else{
 	//graph_->add_edge( n1-2, n2-2,    /* capacities */  cost, 0 );
-	graph_->addEdge( (int)(n1-2), (int)(n2-2),    /* capacities */  (int)(cost*10000), 0 );
+	graph_->addEdge( (int)(n1-2), (int)(n2-2),    /* capacities */  capacity(cost), 0 );
 	  
       }
     };
-- 
2.43.0


From 138650bc4b4f5cc60609a3502026d5efe94f5ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 138/173] fix: the view energy type of the external TRWS
 requested no buffer for its message updates

---
 include/opengm/inference/external/typeView.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/external/typeView.h b/include/opengm/inference/external/typeView.h
index bfb7d25..a6be16f 100644
--- a/include/opengm/inference/external/typeView.h
+++ b/include/opengm/inference/external/typeView.h
@@ -305,7 +305,7 @@ inline int TypeView<GM>::Edge::GetSizeInBytes(GlobalSize Kglobal, LocalSize Ki,
 template <class GM>
 inline int TypeView<GM>::Edge::GetBufSizeInBytes(int vectorMaxSizeInBytes)
 {
-   return 0;
+   return vectorMaxSizeInBytes; // UpdateMessage keeps the source vector in the buffer
 }
 
 template <class GM>
-- 
2.43.0


From eb6e60e4aa59f7066bfd9b8d4e27e33c2bf5c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 139/173] fix: difference factors of weight zero had an
 undefined truncation in the external TRWS

---
 include/opengm/inference/external/trws.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/external/trws.hxx b/include/opengm/inference/external/trws.hxx
index 3be5757..334ca09 100644
--- a/include/opengm/inference/external/trws.hxx
+++ b/include/opengm/inference/external/trws.hxx
@@ -577,7 +577,7 @@ namespace opengm {
                //std::cout << "t: " << t << std::endl;
 
                // weight
-               IndexType index[] = {0, 1};
+               IndexType index[] = {0, IndexType(maxNumLabels_ > 1 ? 1 : 0)};
                ValueType w = gm_[i](index);
                //std::cout << "w: " << w << std::endl;
 
@@ -618,7 +618,7 @@ namespace opengm {
                //std::cout << "t: " << t << std::endl;
 
                // weight
-               IndexType index[] = {0, 1};
+               IndexType index[] = {0, IndexType(maxNumLabels_ > 1 ? 1 : 0)};
                ValueType w = gm_[i](index);
                //std::cout << "w: " << w << std::endl;
 
@@ -648,10 +648,14 @@ namespace opengm {
       inline typename GM::ValueType TRWS<GM>::getT(IndexType factor) const {
          OPENGM_ASSERT(gm_.numberOfVariables(factor) == 2);
 
+         if(maxNumLabels_ < 2) {
+            return 0;
+         }
          IndexType index1[] = {0, 1};
          IndexType index0[] = {0, maxNumLabels_-1};
+         const ValueType weight = gm_[factor](index1);
 
-         return gm_[factor](index0)/gm_[factor](index1);
+         return weight == 0 ? weight : gm_[factor](index0)/weight;
       }
 
       template<class GM>
-- 
2.43.0


From a912d2ad25d6dccb4859e5768ca72223ba4f99d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 140/173] fix: the converting constructor of the external TRWS
 parameter left calculateMinMarginals_ undefined

---
 include/opengm/inference/external/trws.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/external/trws.hxx b/include/opengm/inference/external/trws.hxx
index 334ca09..bd3320e 100644
--- a/include/opengm/inference/external/trws.hxx
+++ b/include/opengm/inference/external/trws.hxx
@@ -86,7 +86,8 @@ namespace opengm {
                 doBPS_(p.doBPS_),
                 energyType_(),
                 tolerance_(p.tolerance_),
-                minDualChange_(p.minDualChange_)
+                minDualChange_(p.minDualChange_),
+                calculateMinMarginals_(p.calculateMinMarginals_)
             {
                if(p.energyType_==0){
                     energyType_ =VIEW;
-- 
2.43.0


From 76444c61f3b78b689a3d2c308438583c7bb61a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 141/173] fix: GCOLIB dropped the pairwise terms of chains and
 mixed up the labels of asymmetric tables

---
 include/opengm/inference/external/gco.hxx | 101 +++++++++-------------
 1 file changed, 40 insertions(+), 61 deletions(-)

diff --git a/include/opengm/inference/external/gco.hxx b/include/opengm/inference/external/gco.hxx
index 95af280..fc06211 100644
--- a/include/opengm/inference/external/gco.hxx
+++ b/include/opengm/inference/external/gco.hxx
@@ -2,6 +2,7 @@
 #define GCO_HXX_
 
 #include <map>
+#include <algorithm>
 
 #include "opengm/inference/inference.hxx"
 #include "opengm/graphicalmodel/graphicalmodel.hxx"
@@ -713,34 +714,22 @@ namespace opengm {
       template<class GM>
       inline typename GCOLIB<GM>::EnergyTermType GCOLIB<GM>::secondOrderFactorViewGridAccess(int pix1, int pix2, int i, int j) {
          OPENGM_ASSERT(pix1 != pix2);
-         IndexType index[] = {i, j};
+         if(pix1 > pix2) {
+            std::swap(pix1, pix2);
+            std::swap(i, j);
+         }
+
+         // neighbors in a row are horizontally connected unless a row holds only one variable
+         const std::vector<std::vector<IndexType> >& factors = (mySelfView_->sizeX_ > 1 && pix2 == pix1 + 1) ?
+            mySelfView_->horizontalSecondOrderFactorLookupTable_ : mySelfView_->verticalSecondOrderFactorLookupTable_;
+         const IndexType firstVariable = mySelfView_->grid_(pix1);
 
          EnergyTermType result = 0.0;
-         typedef typename std::vector<IndexType>::const_iterator vecIter;
-         if(pix1 < pix2) {
-            if(pix2 == pix1 + 1) {
-               // horizontal connection
-               for(vecIter iter = mySelfView_->horizontalSecondOrderFactorLookupTable_[pix1].begin(); iter != mySelfView_->horizontalSecondOrderFactorLookupTable_[pix1].end(); iter++) {
-                  result += mySelfView_->gm_[*iter](index);
-               }
-            } else {
-               // vertical connection
-               for(vecIter iter = mySelfView_->verticalSecondOrderFactorLookupTable_[pix1].begin(); iter != mySelfView_->verticalSecondOrderFactorLookupTable_[pix1].end(); iter++) {
-                  result += mySelfView_->gm_[*iter](index);
-               }
-            }
-         } else {
-            if(pix1 == pix2 + 1) {
-               // horizontal connection
-               for(vecIter iter = mySelfView_->horizontalSecondOrderFactorLookupTable_[pix2].begin(); iter != mySelfView_->horizontalSecondOrderFactorLookupTable_[pix2].end(); iter++) {
-                  result += mySelfView_->gm_[*iter](index);
-               }
-            } else {
-               // vertical connection
-               for(vecIter iter = mySelfView_->verticalSecondOrderFactorLookupTable_[pix2].begin(); iter != mySelfView_->verticalSecondOrderFactorLookupTable_[pix2].end(); iter++) {
-                  result += mySelfView_->gm_[*iter](index);
-               }
-            }
+         for(typename std::vector<IndexType>::const_iterator iter = factors[pix1].begin(); iter != factors[pix1].end(); iter++) {
+            // the factor might order its variables the other way round
+            const bool swapped = mySelfView_->gm_[*iter].variableIndex(0) != firstVariable;
+            IndexType index[] = {static_cast<IndexType>(swapped ? j : i), static_cast<IndexType>(swapped ? i : j)};
+            result += mySelfView_->gm_[*iter](index);
          }
          return result;
       }
@@ -748,26 +737,22 @@ namespace opengm {
       template<class GM>
       inline typename GCOLIB<GM>::EnergyTermType GCOLIB<GM>::secondOrderFactorViewGeneralAccess(int pix1, int pix2, int i, int j) {
          OPENGM_ASSERT(pix1 != pix2);
-         IndexType index[] = {i, j};
+         if(pix1 > pix2) {
+            std::swap(pix1, pix2);
+            std::swap(i, j);
+         }
 
          EnergyTermType result = 0.0;
          typedef typename std::vector<IndexType>::const_iterator vecIter;
          typedef typename std::map<std::pair<IndexType, IndexType>, std::vector<IndexType> >::const_iterator mapIter;
-         if(pix1 <= pix2) {
-            const std::pair<IndexType, IndexType> variables(pix1, pix2);
-            mapIter generalSecondOrderFactors = mySelfView_->generalSecondOrderFactorLookupTable_.find(variables);
-            if(generalSecondOrderFactors != mySelfView_->generalSecondOrderFactorLookupTable_.end()) {
-               for(vecIter iter = generalSecondOrderFactors->second.begin(); iter != generalSecondOrderFactors->second.end(); iter++) {
-                  result += mySelfView_->gm_[*iter](index);
-               }
-            }
-         } else {
-            const std::pair<IndexType, IndexType> variables(pix2, pix1);
-            mapIter generalSecondOrderFactors = mySelfView_->generalSecondOrderFactorLookupTable_.find(variables);
-            if(generalSecondOrderFactors != mySelfView_->generalSecondOrderFactorLookupTable_.end()) {
-               for(vecIter iter = generalSecondOrderFactors->second.begin(); iter != generalSecondOrderFactors->second.end(); iter++) {
-                  result += mySelfView_->gm_[*iter](index);
-               }
+         const std::pair<IndexType, IndexType> variables(pix1, pix2);
+         mapIter generalSecondOrderFactors = mySelfView_->generalSecondOrderFactorLookupTable_.find(variables);
+         if(generalSecondOrderFactors != mySelfView_->generalSecondOrderFactorLookupTable_.end()) {
+            for(vecIter iter = generalSecondOrderFactors->second.begin(); iter != generalSecondOrderFactors->second.end(); iter++) {
+               // the factor might order its variables the other way round
+               const bool swapped = mySelfView_->gm_[*iter].variableIndex(0) != variables.first;
+               IndexType index[] = {static_cast<IndexType>(swapped ? j : i), static_cast<IndexType>(swapped ? i : j)};
+               result += mySelfView_->gm_[*iter](index);
             }
          }
 
@@ -804,7 +789,9 @@ namespace opengm {
                         // down
                         for(IndexType l = 0; l < numLabels_; l++) {
                            for(IndexType m = 0; m < numLabels_; m++) {
-                              IndexType index[] = {l, m};
+                              // the factor might order its variables the other way round
+                              const bool swapped = gm_[gmFactorIndex].variableIndex(0) != gmVariableIndex;
+                              IndexType index[] = {swapped ? m : l, swapped ? l : m};
                               IndexType linearIndex = (l * numLabels_) + m;
                               secondOrderFactorGridValues[((2 * (i + (j * sizeX_))) + down_) * numLabels_ * numLabels_ + linearIndex] += gm_[gmFactorIndex](index);
                            }
@@ -813,7 +800,9 @@ namespace opengm {
                         // right
                         for(IndexType l = 0; l < numLabels_; l++) {
                            for(IndexType m = 0; m < numLabels_; m++) {
-                              IndexType index[] = {l, m};
+                              // the factor might order its variables the other way round
+                              const bool swapped = gm_[gmFactorIndex].variableIndex(0) != gmVariableIndex;
+                              IndexType index[] = {swapped ? m : l, swapped ? l : m};
                               IndexType linearIndex = (l * numLabels_) + m;
                               secondOrderFactorGridValues[((2 * (i + (j * sizeX_))) + right_) * numLabels_ * numLabels_ + linearIndex] += gm_[gmFactorIndex](index);
                            }
@@ -842,26 +831,16 @@ namespace opengm {
       template<class GM>
       inline typename GCOLIB<GM>::EnergyTermType GCOLIB<GM>::secondOrderFactorTablesGridAccess(int pix1, int pix2, int i, int j) {
          OPENGM_ASSERT(pix1 != pix2);
+         if(pix1 > pix2) {
+            std::swap(pix1, pix2);
+            std::swap(i, j);
+         }
 
          IndexType linearIndex = (i * mySelfTables_->numLabels_) + j;
 
-         if(pix1 < pix2) {
-            if(pix2 == pix1 + 1) {
-               // down
-               return mySelfTables_->secondOrderFactorGridValues[((2 * pix1) + mySelfTables_->down_) * mySelfTables_->numLabels_ * mySelfTables_->numLabels_ + linearIndex];
-            } else {
-               // right
-               return mySelfTables_->secondOrderFactorGridValues[((2 * pix1) + mySelfTables_->right_) * mySelfTables_->numLabels_ * mySelfTables_->numLabels_ + linearIndex];
-            }
-         } else {
-            if(pix1 == pix2 + 1) {
-               // up
-               return mySelfTables_->secondOrderFactorGridValues[((2 * pix2) + mySelfTables_->down_) * mySelfTables_->numLabels_ * mySelfTables_->numLabels_ + linearIndex];
-            } else {
-               // left
-               return mySelfTables_->secondOrderFactorGridValues[((2 * pix2) + mySelfTables_->right_) * mySelfTables_->numLabels_ * mySelfTables_->numLabels_ + linearIndex];
-            }
-         }
+         // neighbors in a row are connected by "down" unless a row holds only one variable
+         const IndexType direction = (mySelfTables_->sizeX_ > 1 && pix2 == pix1 + 1) ? mySelfTables_->down_ : mySelfTables_->right_;
+         return mySelfTables_->secondOrderFactorGridValues[((2 * pix1) + direction) * mySelfTables_->numLabels_ * mySelfTables_->numLabels_ + linearIndex];
       }
 
    } // namespace external
-- 
2.43.0


From 5ae16add1665043b6adb2aca62b2b96db7b30deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 142/173] fix: MRFLIB dropped the pairwise terms of chains and
 mixed up the labels of asymmetric tables

---
 include/opengm/inference/external/mrflib.hxx | 72 ++++++++------------
 1 file changed, 27 insertions(+), 45 deletions(-)

diff --git a/include/opengm/inference/external/mrflib.hxx b/include/opengm/inference/external/mrflib.hxx
index 911e985..910eed3 100644
--- a/include/opengm/inference/external/mrflib.hxx
+++ b/include/opengm/inference/external/mrflib.hxx
@@ -705,34 +705,22 @@ namespace opengm {
       template<class GM>
       inline mrfLib::MRF::CostVal MRFLIB<GM>::secondOrderFactorViewAccess(int pix1, int pix2, int i, int j) {
          OPENGM_ASSERT(pix1 != pix2);
-         IndexType index[] = {i, j};
+         if(pix1 > pix2) {
+            std::swap(pix1, pix2);
+            std::swap(i, j);
+         }
+
+         // neighbors in a row are horizontally connected unless a row holds only one variable
+         const std::vector<std::vector<IndexType> >& factors = (mySelfView_->sizeX_ > 1 && pix2 == pix1 + 1) ?
+            mySelfView_->horizontalSecondOrderFactorLookupTable_ : mySelfView_->verticalSecondOrderFactorLookupTable_;
+         const IndexType firstVariable = mySelfView_->grid_(pix1);
 
          mrfLib::MRF::CostVal result = 0.0;
-         typename std::vector<IndexType>::const_iterator iter;
-         if(pix1 < pix2) {
-            if(pix2 == pix1 + 1) {
-               // horizontal connection
-               for(iter = mySelfView_->horizontalSecondOrderFactorLookupTable_[pix1].begin(); iter != mySelfView_->horizontalSecondOrderFactorLookupTable_[pix1].end(); iter++) {
-                  result += mySelfView_->gm_[*iter](index);
-               }
-            } else {
-               // vertical connection
-               for(iter = mySelfView_->verticalSecondOrderFactorLookupTable_[pix1].begin(); iter != mySelfView_->verticalSecondOrderFactorLookupTable_[pix1].end(); iter++) {
-                  result += mySelfView_->gm_[*iter](index);
-               }
-            }
-         } else {
-            if(pix1 == pix2 + 1) {
-               // horizontal connection
-               for(iter = mySelfView_->horizontalSecondOrderFactorLookupTable_[pix2].begin(); iter != mySelfView_->horizontalSecondOrderFactorLookupTable_[pix2].end(); iter++) {
-                  result += mySelfView_->gm_[*iter](index);
-               }
-            } else {
-               // vertical connection
-               for(iter = mySelfView_->verticalSecondOrderFactorLookupTable_[pix2].begin(); iter != mySelfView_->verticalSecondOrderFactorLookupTable_[pix2].end(); iter++) {
-                  result += mySelfView_->gm_[*iter](index);
-               }
-            }
+         for(typename std::vector<IndexType>::const_iterator iter = factors[pix1].begin(); iter != factors[pix1].end(); iter++) {
+            // the factor might order its variables the other way round
+            const bool swapped = mySelfView_->gm_[*iter].variableIndex(0) != firstVariable;
+            IndexType index[] = {static_cast<IndexType>(swapped ? j : i), static_cast<IndexType>(swapped ? i : j)};
+            result += mySelfView_->gm_[*iter](index);
          }
          return result;
       }
@@ -881,7 +869,9 @@ namespace opengm {
                         // down
                         for(IndexType l = 0; l < numLabels_; l++) {
                            for(IndexType m = 0; m < numLabels_; m++) {
-                              IndexType index[] = {l, m};
+                              // the factor might order its variables the other way round
+                              const bool swapped = gm_[gmFactorIndex].variableIndex(0) != gmVariableIndex;
+                              IndexType index[] = {swapped ? m : l, swapped ? l : m};
                               IndexType linearIndex = (l * numLabels_) + m;
                               secondOrderFactorValues[((2 * (i + (j * sizeX_))) + down_) * numLabels_ * numLabels_ + linearIndex] += gm_[gmFactorIndex](index);
                            }
@@ -890,7 +880,9 @@ namespace opengm {
                         // right
                         for(IndexType l = 0; l < numLabels_; l++) {
                            for(IndexType m = 0; m < numLabels_; m++) {
-                              IndexType index[] = {l, m};
+                              // the factor might order its variables the other way round
+                              const bool swapped = gm_[gmFactorIndex].variableIndex(0) != gmVariableIndex;
+                              IndexType index[] = {swapped ? m : l, swapped ? l : m};
                               IndexType linearIndex = (l * numLabels_) + m;
                               secondOrderFactorValues[((2 * (i + (j * sizeX_))) + right_) * numLabels_ * numLabels_ + linearIndex] += gm_[gmFactorIndex](index);
                            }
@@ -919,26 +911,16 @@ namespace opengm {
       template<class GM>
       inline mrfLib::MRF::CostVal MRFLIB<GM>::secondOrderFactorTablesAccess(int pix1, int pix2, int i, int j) {
          OPENGM_ASSERT(pix1 != pix2);
+         if(pix1 > pix2) {
+            std::swap(pix1, pix2);
+            std::swap(i, j);
+         }
 
          IndexType linearIndex = (i * mySelfTables_->numLabels_) + j;
 
-         if(pix1 < pix2) {
-            if(pix2 == pix1 + 1) {
-               // down
-               return mySelfTables_->secondOrderFactorValues[((2 * pix1) + mySelfTables_->down_) * mySelfTables_->numLabels_ * mySelfTables_->numLabels_ + linearIndex];
-            } else {
-               // right
-               return mySelfTables_->secondOrderFactorValues[((2 * pix1) + mySelfTables_->right_) * mySelfTables_->numLabels_ * mySelfTables_->numLabels_ + linearIndex];
-            }
-         } else {
-            if(pix1 == pix2 + 1) {
-               // up
-               return mySelfTables_->secondOrderFactorValues[((2 * pix2) + mySelfTables_->down_) * mySelfTables_->numLabels_ * mySelfTables_->numLabels_ + linearIndex];
-            } else {
-               // left
-               return mySelfTables_->secondOrderFactorValues[((2 * pix2) + mySelfTables_->right_) * mySelfTables_->numLabels_ * mySelfTables_->numLabels_ + linearIndex];
-            }
-         }
+         // neighbors in a row are connected by "down" unless a row holds only one variable
+         const IndexType direction = (mySelfTables_->sizeX_ > 1 && pix2 == pix1 + 1) ? mySelfTables_->down_ : mySelfTables_->right_;
+         return mySelfTables_->secondOrderFactorValues[((2 * pix1) + direction) * mySelfTables_->numLabels_ * mySelfTables_->numLabels_ + linearIndex];
       }
 
    } // namespace external
-- 
2.43.0


From 05e7f2079926e22d4b720a2286bfce9a249e1912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 143/173] fix: value and bound of GCOLIB and MRFLIB left out
 the factors without variables

---
 include/opengm/inference/external/gco.hxx    | 15 ++++++++++++---
 include/opengm/inference/external/mrflib.hxx | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/external/gco.hxx b/include/opengm/inference/external/gco.hxx
index fc06211..ba16aeb 100644
--- a/include/opengm/inference/external/gco.hxx
+++ b/include/opengm/inference/external/gco.hxx
@@ -82,6 +82,7 @@ namespace opengm {
          IndexType sizeY_;
          const IndexType numNodes_;
          const LabelType numLabels_;
+         ValueType constTerm_;
          marray::Matrix<size_t> grid_;
          gcoLib::GCoptimizationGeneralGraph* GCOGeneralGraph_;
          gcoLib::GCoptimizationGridGraph* GCOGridGraph_;
@@ -136,7 +137,7 @@ namespace opengm {
 
       template<class GM>
       GCOLIB<GM>::GCOLIB(const typename GCOLIB::GraphicalModelType& gm, const Parameter& para)
-         : gm_(gm), parameter_(para), numNodes_(gm_.numberOfVariables()), numLabels_(gm_.numberOfLabels(0)), GCOGeneralGraph_(NULL),
+         : gm_(gm), parameter_(para), numNodes_(gm_.numberOfVariables()), numLabels_(gm_.numberOfLabels(0)), constTerm_(0), GCOGeneralGraph_(NULL),
            GCOGridGraph_(NULL), D_(NULL), V_(NULL), hCue_(NULL), vCue_(NULL) {
 
          // check label number
@@ -144,6 +145,14 @@ namespace opengm {
             throw(RuntimeError("GCOLIB only supports graphical models where each variable has the same number of states."));
          }
 
+         // factors without variables are not part of the energy seen by the library
+         for(IndexType i = 0; i < gm_.numberOfFactors(); i++) {
+            if(gm_[i].numberOfVariables() == 0) {
+               const LabelType l = 0;
+               constTerm_ += gm_[i](&l);
+            }
+         }
+
          // check for grid structure
          if(para.doNotUseGrid_){
             isGrid_ = false;
@@ -361,9 +370,9 @@ namespace opengm {
       template<class GM>
       inline typename GM::ValueType GCOLIB<GM>::value() const {
          if(GCOGeneralGraph_) {
-            return GCOGeneralGraph_->compute_energy();
+            return GCOGeneralGraph_->compute_energy() + constTerm_;
          } else {
-            return GCOGridGraph_->compute_energy();
+            return GCOGridGraph_->compute_energy() + constTerm_;
          }
       }
 
diff --git a/include/opengm/inference/external/mrflib.hxx b/include/opengm/inference/external/mrflib.hxx
index 910eed3..ba7b564 100644
--- a/include/opengm/inference/external/mrflib.hxx
+++ b/include/opengm/inference/external/mrflib.hxx
@@ -96,6 +96,7 @@ namespace opengm {
          IndexType sizeX_;
          IndexType sizeY_;
          IndexType numLabels_;
+         ValueType constTerm_;
          marray::Matrix<size_t> grid_;
          Parameter parameter_;
          mrfLib::MRF* mrf_;
@@ -161,7 +162,7 @@ namespace opengm {
 
       template<class GM>
       MRFLIB<GM>::MRFLIB(const typename MRFLIB::GraphicalModelType& gm, const Parameter& para)
-         : gm_(gm), parameter_(para), mrf_(NULL), D_(NULL), V_(NULL), hCue_(NULL), vCue_(NULL),
+         : gm_(gm), constTerm_(0), parameter_(para), mrf_(NULL), D_(NULL), V_(NULL), hCue_(NULL), vCue_(NULL),
            data_(NULL), smooth_(NULL), energy_(NULL) {
          // check for grid structure
          bool isGrid = gm_.isGrid(grid_);
@@ -177,6 +178,14 @@ namespace opengm {
             throw(RuntimeError("MRFLIB only supports graphical models where each variable has the same number of states."));
          }
 
+         // factors without variables are not part of the energy seen by the library
+         for(IndexType i = 0; i < gm_.numberOfFactors(); i++) {
+            if(gm_[i].numberOfVariables() == 0) {
+               const LabelType l = 0;
+               constTerm_ += gm_[i](&l);
+            }
+         }
+
          // generate energy function
          switch(parameter_.energyType_) {
             case Parameter::VIEW: {
@@ -359,7 +368,7 @@ namespace opengm {
       template<class GM>
       inline typename GM::ValueType MRFLIB<GM>::bound() const {
          if(parameter_.inferenceType_ == Parameter::TRWS) {
-            return mrf_->lowerBound();
+            return mrf_->lowerBound() + constTerm_;
          } else {
             return Inference<GM, opengm::Minimizer>::bound();
          }
@@ -367,7 +376,7 @@ namespace opengm {
 
       template<class GM>
       inline typename GM::ValueType MRFLIB<GM>::value() const {
-         return mrf_->totalEnergy();
+         return mrf_->totalEnergy() + constTerm_;
       }
 
       template<class GM>
-- 
2.43.0


From 2a47dbf0a3a8909404e786f73902450c854ada00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 144/173] fix: GCOLIB counted several factors of one pair of
 variables more than once

---
 include/opengm/inference/external/gco.hxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/opengm/inference/external/gco.hxx b/include/opengm/inference/external/gco.hxx
index ba16aeb..d33986b 100644
--- a/include/opengm/inference/external/gco.hxx
+++ b/include/opengm/inference/external/gco.hxx
@@ -385,13 +385,10 @@ namespace opengm {
             GCOGridGraph_->setDataCost(firstOrderFactorViewAccess);
             GCOGridGraph_->setSmoothCost(secondOrderFactorViewGridAccess);
          } else {
-            // add edges
-            for(IndexType i = 0; i < gm_.numberOfFactors(); i++) {
-               if(gm_[i].numberOfVariables() == 2) {
-                  IndexType a = gm_[i].variableIndex(0);
-                  IndexType b = gm_[i].variableIndex(1);
-                  GCOGeneralGraph_->setNeighbors(a, b);
-               }
+            // add one edge for each pair of variables: its smoothness cost is the sum of the factors of the pair
+            typedef typename std::map<std::pair<IndexType, IndexType>, std::vector<IndexType> >::const_iterator mapIter;
+            for(mapIter iter = generalSecondOrderFactorLookupTable_.begin(); iter != generalSecondOrderFactorLookupTable_.end(); iter++) {
+               GCOGeneralGraph_->setNeighbors(iter->first.first, iter->first.second);
             }
 
             GCOGeneralGraph_->setDataCost(firstOrderFactorViewAccess);
-- 
2.43.0


From f25d9719886d427616d3e80616837d0a6be79d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 145/173] fix: GCOLIB ignored factors of more than two
 variables

---
 include/opengm/inference/external/gco.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/inference/external/gco.hxx b/include/opengm/inference/external/gco.hxx
index d33986b..ab481a7 100644
--- a/include/opengm/inference/external/gco.hxx
+++ b/include/opengm/inference/external/gco.hxx
@@ -145,6 +145,11 @@ namespace opengm {
             throw(RuntimeError("GCOLIB only supports graphical models where each variable has the same number of states."));
          }
 
+         // check factor order
+         if(!gm_.maxFactorOrder(2)) {
+            throw(RuntimeError("GCOLIB only supports factors of up to two variables."));
+         }
+
          // factors without variables are not part of the energy seen by the library
          for(IndexType i = 0; i < gm_.numberOfFactors(); i++) {
             if(gm_[i].numberOfVariables() == 0) {
-- 
2.43.0


From 99194a1bd74072b2b4b258e86a3f10c5cd00e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 146/173] fix: GCOLIB and MRFLIB accepted weighted tables that
 are not multiples of each other

---
 include/opengm/inference/external/gco.hxx    | 16 +++++++++-------
 include/opengm/inference/external/mrflib.hxx | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/opengm/inference/external/gco.hxx b/include/opengm/inference/external/gco.hxx
index ab481a7..29a86ca 100644
--- a/include/opengm/inference/external/gco.hxx
+++ b/include/opengm/inference/external/gco.hxx
@@ -413,11 +413,10 @@ namespace opengm {
          setD();
          setV();
 
-         // TODO check if this is a requirement only for mrf or also for gco.
-         /*// check if energy table is symmetric. This is required by mrf.
+         // check if energy table is symmetric: gco looks it up for both orders of two neighboring sites
          if(!symmetricEnergyTable()) {
             throw(RuntimeError("Energy table has to be symmetric."));
-         }*/
+         }
 
          if(isGrid_) {
             setWeightedTableWeights();
@@ -496,6 +495,7 @@ namespace opengm {
       template<class GM>
       inline void GCOLIB<GM>::setV() {
          V_ = new EnergyTermType[numLabels_ * numLabels_];
+         std::fill(V_, V_ + numLabels_ * numLabels_, EnergyTermType(0));
 
          IndexType gmVariableIndex = grid_(0);
          for(IndexType i = 0; i < gm_.numberOfFactors(gmVariableIndex); i++) {
@@ -515,6 +515,8 @@ namespace opengm {
       inline void GCOLIB<GM>::setWeightedTableWeights() {
          hCue_ = new EnergyTermType[sizeX_ * sizeY_];
          vCue_ = new EnergyTermType[sizeX_ * sizeY_];
+         std::fill(hCue_, hCue_ + sizeX_ * sizeY_, EnergyTermType(0));
+         std::fill(vCue_, vCue_ + sizeX_ * sizeY_, EnergyTermType(0));
 
          for(IndexType i = 0; i < sizeX_; i++) {
             for(IndexType j = 0; j < sizeY_; j++) {
@@ -581,13 +583,13 @@ namespace opengm {
       template<class GM>
       inline bool GCOLIB<GM>::sameEnergyTable() const {
          const double eps = OPENGM_FLOAT_TOL;
-         for(IndexType i = 0; i < sizeX_ - 1; i++) {
-            for(IndexType j = 0; j < sizeY_ - 1; j++) {
+         for(IndexType i = 0; i < sizeX_; i++) {
+            for(IndexType j = 0; j < sizeY_; j++) {
                IndexType gmVariableIndex = grid_(i, j);
                for(IndexType k = 0; k < gm_.numberOfFactors(gmVariableIndex); k++) {
                   IndexType gmFactorIndex = gm_.factorOfVariable(gmVariableIndex, k);
                   if(gm_.numberOfVariables(gmFactorIndex) == 2) {
-                     if(gm_.variableFactorConnection(grid_(i + 1, j), gmFactorIndex)) {
+                     if((i < sizeX_ - 1) && gm_.variableFactorConnection(grid_(i + 1, j), gmFactorIndex)) {
                         for(IndexType l = 0; l < numLabels_; l++) {
                            for(IndexType m = 0; m < numLabels_; m++) {
                               IndexType index[] = {l, m};
@@ -596,7 +598,7 @@ namespace opengm {
                               }
                            }
                         }
-                     } else if(gm_.variableFactorConnection(grid_(i, j + 1), gmFactorIndex)) {
+                     } else if((j < sizeY_ - 1) && gm_.variableFactorConnection(grid_(i, j + 1), gmFactorIndex)) {
                         for(IndexType l = 0; l < numLabels_; l++) {
                            for(IndexType m = 0; m < numLabels_; m++) {
                               IndexType index[] = {l, m};
diff --git a/include/opengm/inference/external/mrflib.hxx b/include/opengm/inference/external/mrflib.hxx
index ba7b564..7ff4b6a 100644
--- a/include/opengm/inference/external/mrflib.hxx
+++ b/include/opengm/inference/external/mrflib.hxx
@@ -509,6 +509,7 @@ namespace opengm {
       template<class GM>
       inline void MRFLIB<GM>::setV() {
          V_ = new mrfLib::MRF::CostVal[numLabels_ * numLabels_];
+         std::fill(V_, V_ + numLabels_ * numLabels_, mrfLib::MRF::CostVal(0));
 
          IndexType gmVariableIndex = grid_(0);
          for(IndexType i = 0; i < gm_.numberOfFactors(gmVariableIndex); i++) {
@@ -528,6 +529,8 @@ namespace opengm {
       inline void MRFLIB<GM>::setWeightedTableWeights() {
          hCue_ = new mrfLib::MRF::CostVal[sizeX_ * sizeY_];
          vCue_ = new mrfLib::MRF::CostVal[sizeX_ * sizeY_];
+         std::fill(hCue_, hCue_ + sizeX_ * sizeY_, mrfLib::MRF::CostVal(0));
+         std::fill(vCue_, vCue_ + sizeX_ * sizeY_, mrfLib::MRF::CostVal(0));
 
          for(IndexType i = 0; i < sizeX_; i++) {
             for(IndexType j = 0; j < sizeY_; j++) {
@@ -594,22 +597,22 @@ namespace opengm {
       template<class GM>
       inline bool MRFLIB<GM>::sameEnergyTable() const {
          const double eps = OPENGM_FLOAT_TOL;
-         for(IndexType i = 0; i < sizeX_ - 1; i++) {
-            for(IndexType j = 0; j < sizeY_ - 1; j++) {
+         for(IndexType i = 0; i < sizeX_; i++) {
+            for(IndexType j = 0; j < sizeY_; j++) {
                IndexType gmVariableIndex = grid_(i, j);
                for(IndexType k = 0; k < gm_.numberOfFactors(gmVariableIndex); k++) {
                   IndexType gmFactorIndex = gm_.factorOfVariable(gmVariableIndex, k);
                   if(gm_.numberOfVariables(gmFactorIndex) == 2) {
-                     if(gm_.variableFactorConnection(grid_(i + 1, j), gmFactorIndex)) {
+                     if((i < sizeX_ - 1) && gm_.variableFactorConnection(grid_(i + 1, j), gmFactorIndex)) {
                         for(IndexType l = 0; l < numLabels_; l++) {
                            for(IndexType m = 0; m < numLabels_; m++) {
                               IndexType index[] = {l, m};
-                              if((fabs(V_[(l * numLabels_) + m] * hCue_[i + (j * sizeX_)]) - gm_[gmFactorIndex](index)) > eps) {
+                              if(fabs((V_[(l * numLabels_) + m] * hCue_[i + (j * sizeX_)]) - gm_[gmFactorIndex](index)) > eps) {
                                  return false;
                               }
                            }
                         }
-                     } else if(gm_.variableFactorConnection(grid_(i, j + 1), gmFactorIndex)) {
+                     } else if((j < sizeY_ - 1) && gm_.variableFactorConnection(grid_(i, j + 1), gmFactorIndex)) {
                         for(IndexType l = 0; l < numLabels_; l++) {
                            for(IndexType m = 0; m < numLabels_; m++) {
                               IndexType index[] = {l, m};
@@ -799,6 +802,8 @@ namespace opengm {
       inline void MRFLIB<GM>::setWeights() {
          hCue_ = new mrfLib::MRF::CostVal[sizeX_ * sizeY_];
          vCue_ = new mrfLib::MRF::CostVal[sizeX_ * sizeY_];
+         std::fill(hCue_, hCue_ + sizeX_ * sizeY_, mrfLib::MRF::CostVal(0));
+         std::fill(vCue_, vCue_ + sizeX_ * sizeY_, mrfLib::MRF::CostVal(0));
 
          for(IndexType i = 0; i < sizeX_; i++) {
             for(IndexType j = 0; j < sizeY_; j++) {
-- 
2.43.0


From 94e7f558e86fd6d4a46720bef76ccba912ff4463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 147/173] fix: difference factors of weight zero had an
 undefined truncation in MRFLIB

---
 include/opengm/inference/external/mrflib.hxx | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/external/mrflib.hxx b/include/opengm/inference/external/mrflib.hxx
index 7ff4b6a..37a0aea 100644
--- a/include/opengm/inference/external/mrflib.hxx
+++ b/include/opengm/inference/external/mrflib.hxx
@@ -404,8 +404,9 @@ namespace opengm {
 
          ValueType t = 0.0;
          for(IndexType i = 0; i < gm_.numberOfFactors(); i++) {
+            // factors of weight zero have no truncation
             if(gm_.numberOfVariables(i) == 2) {
-               t = getT(i, 1);
+               t = std::max(t, getT(i, 1));
             }
          }
          std::cout << "T: " << t << std::endl;
@@ -437,8 +438,9 @@ namespace opengm {
 
          ValueType t = 0.0;
          for(IndexType i = 0; i < gm_.numberOfFactors(); i++) {
+            // factors of weight zero have no truncation
             if(gm_.numberOfVariables(i) == 2) {
-               t = getT(i, 2);
+               t = std::max(t, getT(i, 2));
             }
          }
          std::cout << "T: " << t << std::endl;
@@ -765,10 +767,14 @@ namespace opengm {
       inline typename GM::ValueType MRFLIB<GM>::getT(IndexType factor, ValueType e) const {
          OPENGM_ASSERT(gm_.numberOfVariables(factor) == 2);
 
+         if(numLabels_ < 2) {
+            return 0;
+         }
          IndexType index1[] = {0, 1};
          IndexType index0[] = {0, numLabels_-1};
+         const ValueType weight = gm_[factor](index1);
 
-         return gm_[factor](index0)/gm_[factor](index1);
+         return weight == 0 ? weight : gm_[factor](index0)/weight;
          /*
          //ValueType value = gm_[factor](index);
          ValueType w = gm_[factor](index1);
@@ -788,7 +794,8 @@ namespace opengm {
       inline bool MRFLIB<GM>::sameT(ValueType T, ValueType e) const {
          for(IndexType i = 0; i < gm_.numberOfFactors(); i++) {
             if(gm_.numberOfVariables(i) == 2) {
-               if(fabs(getT(i, e) - T) < OPENGM_FLOAT_TOL) {
+               const ValueType t = getT(i, e);
+               if(t == 0 || fabs(t - T) < OPENGM_FLOAT_TOL) {
                   continue;
                } else {
                   return false;
@@ -813,11 +820,11 @@ namespace opengm {
                   if(gm_.numberOfVariables(gmFactorIndex) == 2) {
                      if((i < sizeX_ - 1) && gm_.variableFactorConnection(grid_(i + 1, j), gmFactorIndex)) {
                         // set hCue
-                        IndexType index[] = {0, 1};
+                        IndexType index[] = {0, IndexType(numLabels_ > 1 ? 1 : 0)};
                         hCue_[i + (j * sizeX_)] = gm_[gmFactorIndex](index);
                      } else if((j < sizeY_ -1 ) && gm_.variableFactorConnection(grid_(i, j + 1), gmFactorIndex)) {
                         // set vCue
-                        IndexType index[] = {0, 1};
+                        IndexType index[] = {0, IndexType(numLabels_ > 1 ? 1 : 0)};
                         vCue_[i + (j * sizeX_)] = gm_[gmFactorIndex](index);
                      } else if((i != 0) && gm_.variableFactorConnection(grid_(i - 1, j), gmFactorIndex)) {
                         continue;
-- 
2.43.0


From c755d51f7a3b1f1e8b78124bf4d4bd94541869fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 148/173] fix: the external TRWS ignored factors of more than
 two variables

---
 include/opengm/inference/external/trws.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/inference/external/trws.hxx b/include/opengm/inference/external/trws.hxx
index bd3320e..4642f1e 100644
--- a/include/opengm/inference/external/trws.hxx
+++ b/include/opengm/inference/external/trws.hxx
@@ -234,6 +234,11 @@ namespace opengm {
          :  gm_(gm), parameter_(para), mrfView_(NULL), nodesView_(NULL), mrfGeneral_(NULL), nodesGeneral_(NULL),
             mrfTL1_(NULL), nodesTL1_(NULL), mrfTL2_(NULL), nodesTL2_(NULL), minMarginals_(NULL), minMarginalsOffsets_(NULL),
             numNodes_(gm_.numberOfVariables()), maxNumLabels_(gm_.numberOfLabels(0)) {
+         // check factor order
+         if(!gm_.maxFactorOrder(2)) {
+            throw(RuntimeError("TRWS only supports factors of up to two variables."));
+         }
+
          // check label number
          checkLabelNumber();
          if(parameter_.calculateMinMarginals_){
-- 
2.43.0


From 19adb1cd3d449f12e1e5b98f52765268114e1703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 149/173] fix: FastPD did not compile: its rebinding templates
 named a second template parameter

---
 include/opengm/inference/external/fastPD.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/external/fastPD.hxx b/include/opengm/inference/external/fastPD.hxx
index f200f30..40528c9 100644
--- a/include/opengm/inference/external/fastPD.hxx
+++ b/include/opengm/inference/external/fastPD.hxx
@@ -37,12 +37,12 @@ namespace opengm {
 
         template<class _GM>
         struct RebindGm{
-            typedef FastPD<_GM,ACC> type;
+            typedef FastPD<_GM> type;
         };
 
         template<class _GM,class _ACC>
         struct RebindGmAndAcc{
-            typedef FastPD<_GM,_ACC> type;
+            typedef FastPD<_GM> type;
         };
 
          ///Parameter
-- 
2.43.0


From dbec136401c5eb82ceafa5239a5c67ad2928ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 150/173] fix: FastPD returned the best labeling for the n-th
 best

---
 include/opengm/inference/external/fastPD.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/external/fastPD.hxx b/include/opengm/inference/external/fastPD.hxx
index 40528c9..709a245 100644
--- a/include/opengm/inference/external/fastPD.hxx
+++ b/include/opengm/inference/external/fastPD.hxx
@@ -187,6 +187,9 @@ namespace opengm {
       inline InferenceTermination FastPD<GM>::arg(std::vector<LabelType>& arg, const size_t& n) const {
          OPENGM_ASSERT(pdInference_ != NULL);
 
+         if(n > 1) {
+            return UNKNOWN;
+         }
          arg.resize(gm_.numberOfVariables());
          for(IndexType i = 0; i < gm_.numberOfVariables(); i++) {
             arg[i] = pdInference_->_pinfo[i].label;
-- 
2.43.0


From 938954a088b2cb1b9a3ca6aadfd811f002067626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 151/173] fix: the bound of FastPD was wrong for variables
 without or with several unary factors

---
 include/opengm/inference/external/fastPD.hxx | 52 ++++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/include/opengm/inference/external/fastPD.hxx b/include/opengm/inference/external/fastPD.hxx
index 709a245..9c1ac3a 100644
--- a/include/opengm/inference/external/fastPD.hxx
+++ b/include/opengm/inference/external/fastPD.hxx
@@ -213,32 +213,42 @@ namespace opengm {
             if (gm_[factorId].numberOfVariables()==2)
                factorId2pwId[factorId]=pwId++;
 
-         for (IndexType factorId=0;factorId<gm_.numberOfFactors();++factorId)
+         // unary terms: the dual variables of a variable enter once, whatever its number of unary factors
+         for (IndexType varId=0;varId<gm_.numberOfVariables();++varId)
          {
-            const typename GM::FactorType& f=gm_[factorId];
-            ValueType res=std::numeric_limits<ValueType>::infinity(), res1;
-            if (f.numberOfVariables()==1)
+            ValueType res=std::numeric_limits<ValueType>::infinity();
+            for (LabelType label=0;label<gm_.numberOfLabels(varId);++label)
             {
-               IndexType varId=f.variableIndex(0);
-               for (LabelType label=0;label<gm_.numberOfLabels(varId);++label)
+               ValueType res1=0;
+               for (IndexType i=0;i<gm_.numberOfFactors(varId);++i)
                {
-      		  res1=f(&label);
-                  for (IndexType i=0;i<gm_.numberOfFactors(varId);++i)
+                  const IndexType fId=gm_.factorOfVariable(varId,i);
+                  if (gm_[fId].numberOfVariables()==1)
+                     res1+=gm_[fId](&label);
+                  else if (gm_[fId].numberOfVariables()==2)
                   {
-                     IndexType fId=gm_.factorOfVariable(varId,i);
-                     if (gm_[fId].numberOfVariables()==2)
-                     {
-                        OPENGM_ASSERT(factorId2pwId[fId]<std::numeric_limits<IndexType>::max());
-                        if (gm_[fId].variableIndex(0)==varId)
-                           res1+=pdInference_->_y[label*numPairs_+factorId2pwId[fId]];
-                        else
-                           res1-=pdInference_->_y[label*numPairs_+factorId2pwId[fId]];
-                     }
+                     OPENGM_ASSERT(factorId2pwId[fId]<std::numeric_limits<IndexType>::max());
+                     if (gm_[fId].variableIndex(0)==varId)
+                        res1+=pdInference_->_y[label*numPairs_+factorId2pwId[fId]];
+                     else
+                        res1-=pdInference_->_y[label*numPairs_+factorId2pwId[fId]];
                   }
-                  res=std::min(res,res1);
                }
+               res=std::min(res,res1);
+            }
+            boundValue+=res;
+         }
+
+         for (IndexType factorId=0;factorId<gm_.numberOfFactors();++factorId)
+         {
+            const typename GM::FactorType& f=gm_[factorId];
+            if (f.numberOfVariables()==0)
+            {
+               const LabelType label=0;
+               boundValue+=f(&label);
             }else if (f.numberOfVariables()==2)
             {
+               ValueType res=std::numeric_limits<ValueType>::infinity();
                pwId=factorId2pwId[factorId];
                OPENGM_ASSERT(pwId<std::numeric_limits<IndexType>::max());
                IndexType varId0=f.variableIndex(0),varId1=f.variableIndex(1);
@@ -246,15 +256,15 @@ namespace opengm {
                   for (LabelType label1=0;label1<gm_.numberOfLabels(varId1);++label1)
                   {
                      std::vector<LabelType> labels(2); labels[0]=label0; labels[1]=label1;
-                     res1=f(labels.begin())-pdInference_->_y[label0*numPairs_+pwId]+pdInference_->_y[label1*numPairs_+pwId];
+                     ValueType res1=f(labels.begin())-pdInference_->_y[label0*numPairs_+pwId]+pdInference_->_y[label1*numPairs_+pwId];
                      res=std::min(res,res1);
                   }
-            }else{
+               boundValue+=res;
+            }else if (f.numberOfVariables()>2){
                AccumulationType::ineutral(boundValue);
                return boundValue;
                //throw std::runtime_error("FastPD: only factors of order 1 and 2 are supported!");
             }
-            boundValue+=res;
          }
 
          return boundValue;
-- 
2.43.0


From f54d49fe52b22b3099fa6f9249e1f01afd8be748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 152/173] fix: FastPD refused multiples of one table if the
 first multiple was zero

---
 include/opengm/inference/external/fastPD.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/external/fastPD.hxx b/include/opengm/inference/external/fastPD.hxx
index 9c1ac3a..df50881 100644
--- a/include/opengm/inference/external/fastPD.hxx
+++ b/include/opengm/inference/external/fastPD.hxx
@@ -338,13 +338,18 @@ namespace opengm {
          }
          for(IndexType i = 0; i < gm_.numberOfFactors(); i++) {
             if(gm_.numberOfVariables(i) == 2) {
+               bool nonZero = false;
                for(IndexType k = 0; k < gm_.numberOfLabels(0); k++) {
                   for(IndexType l = 0; l < gm_.numberOfLabels(0); l++) {
                      IndexType index[] = {k, l};
                      distance_[(l * gm_.numberOfLabels(0)) + k] = gm_[i](index);
+                     nonZero |= gm_[i](index) != 0;
                   }
                }
-               break;
+               // a table of zeros is a multiple of any other table
+               if(nonZero) {
+                  break;
+               }
             }
          }
       }
-- 
2.43.0


From ef30dccaf9fda1bb8ee2fa54520a300302e15c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 153/173] fix: AD3Inf without a model kept a reference to a
 temporary and did not compile

---
 include/opengm/inference/external/ad3.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/external/ad3.hxx b/include/opengm/inference/external/ad3.hxx
index 8ccaaba..782a905 100644
--- a/include/opengm/inference/external/ad3.hxx
+++ b/include/opengm/inference/external/ad3.hxx
@@ -155,6 +155,7 @@ namespace opengm {
 
 
       private:
+         const GraphicalModelType noGm_; // used if setup without gm
          const GraphicalModelType& gm_;
          Parameter parameter_;
          IndexType numVar_;
@@ -282,7 +283,8 @@ namespace opengm {
          N_LABELS_ITER nLabelsEnd,
          const Parameter para
       ) :
-      gm_(GM()), // DIRTY
+      noGm_(),
+      gm_(noGm_),
       parameter_(para),
       numVar_(std::distance(nLabelsBegin,nLabelsEnd)),
       factor_graph_(),
@@ -319,7 +321,8 @@ namespace opengm {
          const Parameter para,
          const bool foo
       ) :
-      gm_(GM()), // DIRTY
+      noGm_(),
+      gm_(noGm_),
       parameter_(para),
       numVar_(nVar),
       factor_graph_(),
-- 
2.43.0


From 6c7c5117989e055f5d7497b4c49e5845a46aab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 154/173] fix: GRANTE did not include the view function it uses

---
 include/opengm/inference/external/grante.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/external/grante.hxx b/include/opengm/inference/external/grante.hxx
index 2901783..b217daf 100644
--- a/include/opengm/inference/external/grante.hxx
+++ b/include/opengm/inference/external/grante.hxx
@@ -5,6 +5,7 @@
 
 #include "opengm/inference/inference.hxx"
 #include "opengm/graphicalmodel/graphicalmodel.hxx"
+#include "opengm/functions/view.hxx"
 #include "opengm/operations/minimizer.hxx"
 #include "opengm/inference/inference.hxx"
 #include "opengm/inference/visitors/visitors.hxx"
-- 
2.43.0


From e530dc6b86556def1479e7768dce1177cde1910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:51 +0000
Subject: [PATCH 155/173] fix: GRANTE returned its labelling as the second best
 one as well

---
 include/opengm/inference/external/grante.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/external/grante.hxx b/include/opengm/inference/external/grante.hxx
index b217daf..ae27a79 100644
--- a/include/opengm/inference/external/grante.hxx
+++ b/include/opengm/inference/external/grante.hxx
@@ -290,6 +290,9 @@ namespace opengm {
 
     template<class GM>
     inline InferenceTermination GRANTE<GM>::arg(std::vector<LabelType>& arg, const size_t& n) const {
+       if(n > 1) {
+          return UNKNOWN;
+       }
        arg.resize(gm_.numberOfVariables());
        for(IndexType i = 0; i < gm_.numberOfVariables(); i++) {
           arg[i] = static_cast<LabelType>(granteState_[i]);
-- 
2.43.0


From c0a5f52ebb96c11a8666a8d7d4cc51a0b07beeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:51 +0000
Subject: [PATCH 156/173] fix: GRANTE read an empty state when asked for the
 labelling before infer

---
 include/opengm/inference/external/grante.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/external/grante.hxx b/include/opengm/inference/external/grante.hxx
index ae27a79..069dcce 100644
--- a/include/opengm/inference/external/grante.hxx
+++ b/include/opengm/inference/external/grante.hxx
@@ -293,6 +293,9 @@ namespace opengm {
        if(n > 1) {
           return UNKNOWN;
        }
+       if(granteState_.size() != gm_.numberOfVariables()) {
+          return UNKNOWN;
+       }
        arg.resize(gm_.numberOfVariables());
        for(IndexType i = 0; i < gm_.numberOfVariables(); i++) {
           arg[i] = static_cast<LabelType>(granteState_[i]);
-- 
2.43.0


From 2b6e0205e5bf689e472ece67c17ae4f7cefbb370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:51 +0000
Subject: [PATCH 157/173] fix: GRANTE shared one table among functions of
 different types with the same index

---
 include/opengm/inference/external/grante.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/external/grante.hxx b/include/opengm/inference/external/grante.hxx
index 069dcce..454bd53 100644
--- a/include/opengm/inference/external/grante.hxx
+++ b/include/opengm/inference/external/grante.hxx
@@ -330,17 +330,19 @@ namespace opengm {
 
     template<class GM>
     inline void GRANTE<GM>::groupFactors(std::vector<std::vector<IndexType> >& groupedFactors) const {
-       // Factors are grouped by function index and the cardinalities of the connected variables.
+       // Factors are grouped by function type, function index and the cardinalities of the connected variables.
        groupedFactors.clear();
-       typedef std::map<std::pair<IndexType, std::vector<LabelType> >, size_t> Map;
+       typedef std::pair<size_t, IndexType> FunctionKey;
+       typedef std::map<std::pair<FunctionKey, std::vector<LabelType> >, size_t> Map;
        Map lookupTable;
        for(IndexType i = 0; i < gm_.numberOfFactors(); i++) {
-          IndexType currentFunctionIndex = gm_[i].functionIndex();
+          // a function index is only unique among the functions of one type
+          FunctionKey currentFunctionIndex(gm_[i].functionType(), gm_[i].functionIndex());
           std::vector<LabelType> currentCardinalities;
           for(IndexType j = 0; j < gm_[i].numberOfVariables(); j++) {
              currentCardinalities.push_back(gm_.numberOfLabels(gm_[i].variableIndex(j)));
           }
-          std::pair<IndexType, std::vector<LabelType> > currentKey(currentFunctionIndex, currentCardinalities);
+          std::pair<FunctionKey, std::vector<LabelType> > currentKey(currentFunctionIndex, currentCardinalities);
           typename Map::const_iterator iter = lookupTable.find(currentKey);
           if(iter != lookupTable.end()) {
              groupedFactors[iter->second].push_back(i);
-- 
2.43.0


From fc212132af421b8df78a9398e972eb4e9b0fdcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:51 +0000
Subject: [PATCH 158/173] fix: ShapeWalkerSwitchedOrder ran out of bounds for a
 function without variables

---
 include/opengm/utilities/indexing.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/utilities/indexing.hxx b/include/opengm/utilities/indexing.hxx
index ca5f071..e249714 100644
--- a/include/opengm/utilities/indexing.hxx
+++ b/include/opengm/utilities/indexing.hxx
@@ -162,6 +162,9 @@ namespace opengm {
       coordinateTuple_(dimension, 0),
       dimension_(dimension) { }
       ShapeWalkerSwitchedOrder & operator++() {
+         if(dimension_ == 0) {
+            return *this;
+         }
          for(size_t d = dimension_-1; true; --d) {
             if( size_t(coordinateTuple_[d]) != (size_t(shapeBegin_[d]) - size_t(1)) ) {
                ++coordinateTuple_[d];
-- 
2.43.0


From 575446d40b31a9f29aafda6e62ee350c9e9d6de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 159/173] fix: the libDAI wrappers returned their labelling as
 the second best one as well

---
 include/opengm/inference/external/libdai/inference.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/external/libdai/inference.hxx b/include/opengm/inference/external/libdai/inference.hxx
index b9b118a..c7ab1de 100644
--- a/include/opengm/inference/external/libdai/inference.hxx
+++ b/include/opengm/inference/external/libdai/inference.hxx
@@ -242,6 +242,9 @@ namespace libdai{
       const size_t n
    )const{
       //std::cout <<"LIBDAI ARG"<<std::endl;
+      if(n > 1) {
+         return opengm::UNKNOWN;
+      }
       try{
          std::vector<size_t> states=ia_->findMaximum();
          v.assign(states.begin(),states.end());
-- 
2.43.0


From 93076ac48c1483d02807367e647be955c51f518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 160/173] fix: the libDAI mean field wrapper dropped its
 damping parameter

---
 include/opengm/inference/external/libdai/mean_field.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/external/libdai/mean_field.hxx b/include/opengm/inference/external/libdai/mean_field.hxx
index c73b2bf..b810269 100644
--- a/include/opengm/inference/external/libdai/mean_field.hxx
+++ b/include/opengm/inference/external/libdai/mean_field.hxx
@@ -69,6 +69,7 @@ class MeanField : public LibDaiInference<GM,ACC,MeanField<GM,ACC> >, public open
                <<"maxiter="<<maxiter_<<","
                <<"updates="<<ur<<","
                <<"init="<<init<<","
+               <<"damping="<<damping_<<","
                <<"tol="<<tolerance_<<","
                <<"verbose="<<verbose_<<"]";
             return ss.str();
-- 
2.43.0


From c12e053b04bf3be43e5073fbcee5fecb0d940a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 161/173] fix: CombiLP did not call the visitor's end if the
 relaxation is tight

---
 include/opengm/inference/combilp.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/combilp.hxx b/include/opengm/inference/combilp.hxx
index 639dbe9..80d4b75 100644
--- a/include/opengm/inference/combilp.hxx
+++ b/include/opengm/inference/combilp.hxx
@@ -555,7 +555,10 @@ namespace opengm{
 #endif
 
       if (std::count(initialmask.begin(),initialmask.end(),false)==0)
+      {
+         visitor.end(*this);
          return NORMAL;
+      }
 
       trws_base::transform_inplace(initialmask.begin(),initialmask.end(),std::logical_not<bool>());
 
-- 
2.43.0


From 71ac8ddddbac14f545f9195dbbfc42a442ca7692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 162/173] fix: CombiLP minimised its integer programmes for a
 maximisation problem

---
 include/opengm/inference/combilp.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/combilp.hxx b/include/opengm/inference/combilp.hxx
index 80d4b75..d75f4de 100644
--- a/include/opengm/inference/combilp.hxx
+++ b/include/opengm/inference/combilp.hxx
@@ -147,7 +147,7 @@ namespace opengm{
 
          typedef typename opengm::GraphicalModelManipulator<typename ReparametrizerType::ReparametrizedGMType> GMManipulatorType;
 
-         typedef LPCplex<typename GMManipulatorType::MGM, Minimizer> LPCPLEX;//TODO: move to template parameters
+         typedef LPCplex<typename GMManipulatorType::MGM, ACC> LPCPLEX;//TODO: move to template parameters
 
          CombiLP_base(LPREPARAMETRIZER& reparametrizer, const Parameter& param
 #ifdef TRWS_DEBUG_OUTPUT
-- 
2.43.0


From 3a78c97be67e116081dd07a38cfbd25235bb322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 163/173] fix: the chain decomposition read past the variables
 of a constant factor

---
 include/opengm/inference/trws/trws_decomposition.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 2f282f0..9c5572b 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -319,8 +319,8 @@ void Decomposition<GM>::_CreateNodeList(const GM & gm,NodeList* pnodeList)
 	varList.resize(gm.numberOfVariables());
 	for (IndexType factorId=0;factorId<gm.numberOfFactors();++factorId)
 	{
-		if (gm[factorId].numberOfVariables()>2)
-			throw std::runtime_error("CreateEdgeList(): Only factors up to order 2 are supported!");
+		if ((gm[factorId].numberOfVariables()>2) || (gm[factorId].numberOfVariables()==0))
+			throw std::runtime_error("CreateEdgeList(): Only factors of order 1 and 2 are supported!");
 
 		if (gm[factorId].numberOfVariables()==1) continue;
 		std::vector<IndexType> varIndices(gm[factorId].variableIndicesBegin(),gm[factorId].variableIndicesEnd());
-- 
2.43.0


From a34b8ce7b1956caad3a94884362d7a01eb5bd1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:48 +0000
Subject: [PATCH 164/173] fix: the edge decomposition did not throw the error
 for factors it does not support

---
 include/opengm/inference/trws/trws_decomposition.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 9c5572b..a1631af 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -142,7 +142,7 @@ public:
 		{
 			if (gm[fId].numberOfVariables()==1) continue;
 			if ((gm[fId].numberOfVariables()>2) || (gm[fId].numberOfVariables()==0))
-				std::runtime_error("EdgeDecomposition<GM>::EdgeDecomposition(): Only factors of order 1 or 2 are supported!");
+				throw std::runtime_error("EdgeDecomposition<GM>::EdgeDecomposition(): Only factors of order 1 or 2 are supported!");
 
 			//factor of order 2:
 			parent::_variableLists[pwFid][0]=gm[fId].variableIndex(0);
-- 
2.43.0


From 6219dfda044911acc2f71c87d9dd0e930fc7e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:14 +0000
Subject: [PATCH 165/173] fix: the edge decomposition left out isolated
 variables

---
 include/opengm/inference/trws/trws_decomposition.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index a1631af..c134762 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -150,6 +150,7 @@ public:
 			parent::_pwFactorLists[pwFid][0]=fId;
 			++pwFid;
 		}
+		parent::CheckForIsolatedNodes(gm);
 	}
 };
 
-- 
2.43.0


From d31b88dd3da3ce2d8352faab80b6686b59da977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 166/173] fix: PrimalLPBound::ResetBuffer did not compile

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index cac675b..36b7ad2 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -86,7 +86,7 @@ public:
 	template<class Matrix>
 	ValueType getFactorVariable(IndexType factorId, Matrix& matrix); //pairwise factor factorId, buffering of the solution is performed
 
-	void ResetBuffer(){_bufferedValues(_gm.numberOfFactors(),ValueTypeNan); _totalValue=ValueTypeNan;}//reset buffer, if you changed potentials of gm and want to take this fact into account
+	void ResetBuffer(){_bufferedValues.assign(_gm.numberOfFactors(),ValueTypeNan); _totalValue=ValueTypeNan;}//reset buffer, if you changed potentials of gm and want to take this fact into account
 	bool IsValueBuffered(IndexType factorId)const{OPENGM_ASSERT(factorId<_bufferedValues.size()); return (_bufferedValues[factorId] != ValueTypeNan);}
 	bool IsFactorVariableBuffered(IndexType factorId)const{return _lastActiveSolver==factorId;}
 	static void CheckDuplicateUnaryFactors(const GM& gm);
-- 
2.43.0


From 80581c47bb2bb9218b0719b2212f998a61f98f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 167/173] fix: PrimalLPBound::getFactorVariable returned the
 coupling of another factor or of old marginals

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index 36b7ad2..f54c058 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -203,8 +203,11 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getFactorVariab
 {
 	_checkPWFactorID(factorId,"PrimalLPBound::getFactorVariable(): ");
 
-	if (_lastActiveSolver!=factorId)
+	if (!IsFactorVariableBuffered(factorId) || !IsValueBuffered(factorId))
+	{
+		_bufferedValues[factorId]=ValueTypeNan;//the solver has to be run again, as it holds the solution of another problem
 		getFactorValue(factorId);
+	}
 
 	return _solver.GetSolution(&matrix);
 }
-- 
2.43.0


From 25bab67c2feb1c834995885b45cabfe3e5fa0783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 168/173] fix: PrimalLPBound gave the transport solver the
 address of a temporary

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index f54c058..8e5cbe8 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -189,7 +189,8 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getFactorValue(
 	const typename GM::FactorType& factor=_gm[factorId];
 	IndexType var0=factor.variableIndex(0),
 			  var1=factor.variableIndex(1);
-	_solver.Init(_unaryFactors[var0].size(),_unaryFactors[var1].size(),FactorWrapper<typename GM::FactorType>(factor));
+	const FactorWrapper<typename GM::FactorType> wrapper(factor);//the solver keeps its address
+	_solver.Init(_unaryFactors[var0].size(),_unaryFactors[var1].size(),wrapper);
 	_bufferedValues[factorId]=_solver.Solve(_unaryFactors[var0].begin(),_unaryFactors[var1].begin());
 	_lastActiveSolver=factorId;
 	}
-- 
2.43.0


From 1d30425e2e35889c56c6e43ad2743e9bad2f128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 169/173] fix: PrimalLPBound did not throw the error for
 factors that are not of second order

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index 8e5cbe8..19be7bc 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -176,7 +176,7 @@ void PrimalLPBound<GM,ACC>::_checkPWFactorID(IndexType factorId, const std::stri
 {
 	OPENGM_ASSERT(factorId < _gm.numberOfFactors());
 	if (_gm[factorId].numberOfVariables() !=2 )
-		std::runtime_error(message_prefix + "Function can be applied to second order factors only!");
+		throw std::runtime_error(message_prefix + "Function can be applied to second order factors only!");
 }
 
 template <class GM,class ACC>
-- 
2.43.0


From 83771f43a9f08012d7f1cf102ef537535e86b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 170/173] fix: VariableToFactorMapping did not throw the error
 for a second unary factor

---
 include/opengm/inference/trws/utilities2.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/utilities2.hxx b/include/opengm/inference/trws/utilities2.hxx
index 763cfde..7a81fc9 100644
--- a/include/opengm/inference/trws/utilities2.hxx
+++ b/include/opengm/inference/trws/utilities2.hxx
@@ -55,7 +55,7 @@ _mapping(gm.numberOfVariables(),InvalidIndex)//invalid index
 		if (gm[i].numberOfVariables() == 1)
 		{ if (_mapping[gm[i].variableIndex(0)]==InvalidIndex)
 			_mapping[gm[i].variableIndex(0)]=i;
-		  else std::runtime_error("VariableToFactorMapping::VariableToFactorMapping() : duplicate unary factor!");
+		  else throw std::runtime_error("VariableToFactorMapping::VariableToFactorMapping() : duplicate unary factor!");
 		}
 
 	_numberOfUnaryFactors=std::count_if(_mapping.begin(),_mapping.end(),std::bind2nd(std::not_equal_to<IndexType>(),InvalidIndex));
-- 
2.43.0


From 9bb1d7f5ecf3520407af31a0abb27853436fa448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 171/173] fix: the constructors of LOC's parameter left
 maxTreeSize_ uninitialised

---
 include/opengm/inference/loc.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/loc.hxx b/include/opengm/inference/loc.hxx
index 9ecea8d..a6a7af1 100644
--- a/include/opengm/inference/loc.hxx
+++ b/include/opengm/inference/loc.hxx
@@ -121,6 +121,7 @@ public:
          maxIterations_(maxIterations),
          stopAfterNBadIterations_(stopAfterNBadIterations),
          maxBlockSize_(maxBlockSize),
+         maxTreeSize_(maxTreeSize),
          treeRuns_(treeRuns)
       {
 
@@ -139,6 +140,7 @@ public:
          maxIterations_(p.maxIterations_),
          stopAfterNBadIterations_(p.stopAfterNBadIterations_),
          maxBlockSize_(p.maxBlockSize_),
+         maxTreeSize_(p.maxTreeSize_),
          treeRuns_(p.treeRuns_)
       {
 
-- 
2.43.0


From 7df20b62450e72aae1ee99ffad6571957d5eb6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:14 +0000
Subject: [PATCH 172/173] fix: LOC added the factors it merges whatever the
 operator of the model

---
 .../opengm/inference/auxiliary/submodel/submodel_builder.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx b/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx
index 91610d6..5813670 100644
--- a/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx
+++ b/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx
@@ -76,7 +76,10 @@ void mergeFactors(
                 ArrayFunction buffer(fac.shapeBegin(),fac.shapeEnd());
                 fac.copyValues(&buffer(0));
                 // update function
-                function+=buffer;
+                typename ArrayFunction::const_iterator bufferValue=buffer.begin();
+                for(typename ArrayFunction::iterator value=function.begin();value!=function.end();++value,++bufferValue){
+                    GM::OperatorType::op(*bufferValue,*value);
+                }
             }
 
         }
-- 
2.43.0


From 3734e6e57e2cbf44814e01d6b775fbe634c45201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 173/173] fix: alpha expansion and alpha-beta swap gave
 variables labels they do not have

---
 include/opengm/inference/alphabetaswap.hxx  | 24 +++++++++++----
 include/opengm/inference/alphaexpansion.hxx | 34 ++++++++++++++-------
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 3bc3948..f24726a 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -68,6 +68,7 @@ private:
    size_t beta_;
    size_t maxState_;
    void increment();
+   bool canMove(const IndexType) const;
    void addUnary(INF&, const size_t var, const ValueType v0, const ValueType v1);
    void addPairwise(INF&, const size_t var1, const size_t var2, const ValueType v0, const ValueType v1, const ValueType v2, const ValueType v3);
 };
@@ -146,6 +147,17 @@ AlphaBetaSwap<GM,INF>::setStartingPoint
    }
 }
 
+// variables that do not have both labels are fixed
+template<class GM, class INF>
+inline bool
+AlphaBetaSwap<GM, INF>::canMove
+(
+   const IndexType var
+) const {
+   return (label_[var] == alpha_ || label_[var] == beta_)
+      && alpha_ < gm_.numberOfLabels(var) && beta_ < gm_.numberOfLabels(var);
+}
+
 template<class GM, class INF>
 inline void
 AlphaBetaSwap<GM, INF>::addUnary
@@ -227,7 +239,7 @@ AlphaBetaSwap<GM, INF>::infer
          }
       }
       for (size_t i = 0; i < numberOfVariables; ++i) {
-         if (label_[i] == alpha_ || label_[i] == beta_) {
+         if (canMove(i)) {
             variable2Node[i] = counter++;
          }
       }
@@ -254,7 +266,7 @@ AlphaBetaSwap<GM, INF>::infer
          if (factor.numberOfVariables() == 1) {
             size_t var = factor.variableIndex(0);
             size_t node = variable2Node[var];
-            if (label_[var] == alpha_ || label_[var] == beta_) {
+            if (canMove(var)) {
                OPENGM_ASSERT(alpha_ < gm_.numberOfLabels(var));
                OPENGM_ASSERT(beta_ < gm_.numberOfLabels(var));
                addUnary(inf, node, factor(vecA), factor(vecB));
@@ -266,14 +278,14 @@ AlphaBetaSwap<GM, INF>::infer
             size_t node1 = variable2Node[var1];
             size_t node2 = variable2Node[var2];
 
-            if ((label_[var1] == alpha_ || label_[var1] == beta_) && (label_[var2] == alpha_ || label_[var2] == beta_)) {
+            if (canMove(var1) && canMove(var2)) {
                addPairwise(inf, node1, node2, factor(vecAA), factor(vecAB), factor(vecBA), factor(vecBB));
                //inf.addPairwise(node1, node2, factor(vecAA), factor(vecAB), factor(vecBA), factor(vecBB));
-            } else if ((label_[var1] == alpha_ || label_[var1] == beta_) && (label_[var2] != alpha_ && label_[var2] != beta_)) {
+            } else if (canMove(var1)) {
                vecAX[1] = vecBX[1] = label_[var2];
                addUnary(inf, node1, factor(vecAX), factor(vecBX));
                //inf.addUnary(node1, factor(vecAX), factor(vecBX));
-            } else if ((label_[var2] == alpha_ || label_[var2] == beta_) && (label_[var1] != alpha_ && label_[var1] != beta_)) {
+            } else if (canMove(var2)) {
                vecXA[0] = vecXB[0] = label_[var1];
                addUnary(inf, node2, factor(vecXA), factor(vecXB));
                //inf.addUnary(node2, factor(vecXA), factor(vecXB));
@@ -286,7 +298,7 @@ AlphaBetaSwap<GM, INF>::infer
       OPENGM_ASSERT(state.size() == counter);
       const std::vector<LabelType> previousLabel(label_);
       for (size_t var = 0; var < numberOfVariables; ++var) {
-         if (label_[var] == alpha_ || label_[var] == beta_) {
+         if (canMove(var)) {
             if (state[variable2Node[var]] == 0)
                label_[var] = alpha_;
             else
diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 099ba72..00e8a72 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -106,6 +106,7 @@ private:
    void setInitialLabel(std::vector<LabelType>& l);
    void setInitialLabelLocalOptimal();
    void setInitialLabelRandom(unsigned int);
+   bool canMove(const IndexType) const;
    void addUnary(INF&, const size_t var, const ValueType v0, const ValueType v1);
    void addPairwise(INF&, const size_t var1, const size_t var2, const ValueType v0, const ValueType v1, const ValueType v2, const ValueType v3);
 };
@@ -236,6 +237,17 @@ AlphaExpansion<GM, INF>::reset() {
    alpha_   = labelList_[counter_];
 }
 
+// variables that take alpha_ already or do not have that label are fixed
+template<class GM, class INF>
+inline bool
+AlphaExpansion<GM, INF>::canMove
+(
+   const IndexType var
+) const
+{
+   return label_[var] != alpha_ && alpha_ < gm_.numberOfLabels(var);
+}
+
 template<class GM, class INF>
 inline void
 AlphaExpansion<GM, INF>::addUnary
@@ -312,22 +324,22 @@ AlphaExpansion<GM, INF>::infer
          }
       }
       INF inf(numberOfVariables, numFacDim, parameter_.parameter_);
-      size_t countAlphas = 0;
+      size_t countFixed = 0;
       for (size_t k=0 ; k<gm_.numberOfVariables(); ++k) {
-         if (label_[k] == alpha_ ) {
+         if (!canMove(k)) {
             addUnary(inf, k, 0, std::numeric_limits<ValueType>::infinity());
-            ++countAlphas;
+            ++countFixed;
          }
       }
       const std::vector<LabelType> previousLabel(label_);
-      if(countAlphas < gm_.numberOfVariables()) {
+      if(countFixed < gm_.numberOfVariables()) {
          for (size_t k=0 ; k<gm_.numberOfFactors(); ++k) {
             const  FactorType& factor = gm_[k];
             if(factor.numberOfVariables() == 1) {
                size_t var = factor.variableIndex(0);
                vecA[0] = alpha_;
                vecX[0] = label_[var];
-               if (label_[var] != alpha_ ) {
+               if (canMove(var)) {
                   addUnary(inf, var, factor(vecA), factor(vecX));
                }
             }
@@ -339,14 +351,14 @@ AlphaExpansion<GM, INF>::infer
                vecAX[0] = alpha_;       vecAX[1] = label_[var2];
                vecXA[0] = label_[var1]; vecXA[1] = alpha_;
                vecXX[0] = label_[var1]; vecXX[1] = label_[var2];
-               if(label_[var1]==alpha_ && label_[var2]==alpha_) {
+               if(!canMove(var1) && !canMove(var2)) {
                   continue;
                }
-               else if(label_[var1]==alpha_) {
-                  addUnary(inf, var2, factor(vecAA), factor(vecAX));
+               else if(!canMove(var1)) {
+                  addUnary(inf, var2, factor(vecXA), factor(vecXX));
                }
-               else if(label_[var2]==alpha_) {
-                  addUnary(inf, var1, factor(vecAA), factor(vecXA));
+               else if(!canMove(var2)) {
+                  addUnary(inf, var1, factor(vecAX), factor(vecXX));
                }
                else{
                   const ValueType vAA = factor(vecAA);
@@ -366,7 +378,7 @@ AlphaExpansion<GM, INF>::infer
          inf.arg(state);
          OPENGM_ASSERT(state.size() == numberOfVariables);
          for(size_t var=0; var<numberOfVariables ; ++var) {
-            if (label_[var] != alpha_ && state[var]==0) {
+            if (canMove(var) && state[var]==0) {
                label_[var] = alpha_;
             }
             OPENGM_ASSERT(label_[var] < gm_.numberOfLabels(var));
-- 
2.43.0

