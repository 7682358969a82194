From 7f58da61eade345d644231d7704548c3bec33a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:47 +0000
Subject: [PATCH 01/40] fix: MinMaxHeap::popTop must stop after moving an item
 to a max level

The item moved down to a child sits on a max level; going on with the
min-level rule from there broke the heap order (e.g. with duplicates).
---
 common/include/rofl/common/min_max_heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 3c58787..0bcfc10 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -368,7 +368,7 @@ namespace rofl {
                     icurr = igrand;
                 } else if (ichild < data_.size() && cmp_(data_[ichild], data_[icurr])) {
                     std::swap(data_[icurr], data_[ichild]);
-                    icurr = ichild;
+                    icurr = data_.size();
                 } else {
                     icurr = data_.size();
                 }
-- 
2.43.0


From eca4162cfc003af902bdf56c4708adb9f4c0d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:47 +0000
Subject: [PATCH 02/40] fix: MinMaxHeap::nextTop and nextBottom return the
 second item

nextTop ignored the children without children of their own (sizes 4, 5) and
nextBottom looked only at the other child of the root.
---
 common/include/rofl/common/min_max_heap.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 0bcfc10..af143ba 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -133,18 +133,29 @@ namespace rofl {
             } else if (data_.size() < 4) {
                 return data_[childMin(0)];
             } else {
-                return data_[grandchildMin(0)];
+                size_t ichild = childMin(0);
+                size_t igrand = grandchildMin(0);
+                return cmp_(data_[ichild], data_[igrand]) ? data_[ichild] : data_[igrand];
             }
         }
 
-        /** Returns the next minimum element.
+        /** Returns the next maximum element.
          */
         const Value& nextBottom() const {
             ROFL_ASSERT(!data_.empty());
             if (data_.size() < 3) {
                 return data_[0];
             } else {
-                return data_[childMin(0)];
+                // The second maximum is the other child of the root or lies in the first two levels below the maximum
+                size_t imax = childMax(0);
+                size_t inext = (imax == childLeft(0)) ? childRight(0) : childLeft(0);
+                for (size_t j = childLeft(imax); j <= childRight(imax) && j < data_.size(); ++j) {
+                    if (cmp_(data_[inext], data_[j])) inext = j;
+                }
+                for (size_t j = grandchildLL(imax); j <= grandchildRR(imax) && j < data_.size(); ++j) {
+                    if (cmp_(data_[inext], data_[j])) inext = j;
+                }
+                return data_[inext];
             }
         }
 
-- 
2.43.0


From 73ef8129b9782e8e8e07c932d3925a16b0c31fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:03 +0000
Subject: [PATCH 03/40] fix: DisjointSet::makeSet counts the new set in
 setNum()

---
 common/src/disjoint_set.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index c12ceea..ad84dc3 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -53,6 +53,7 @@ namespace rofl {
         n.rank = 0;
         n.size = 1;
         nodes_.push_back(n);
+        setNum_++;
         return n.parent;
     }
 
-- 
2.43.0


From 450df996dda2a3dca170aeed17444806f4d21db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:03 +0000
Subject: [PATCH 04/40] fix: DisjointSet::join and size do not access nodes out
 of range for invalid ids

---
 common/include/rofl/common/disjoint_set.h | 2 +-
 common/src/disjoint_set.cpp               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/disjoint_set.h b/common/include/rofl/common/disjoint_set.h
index 31296b6..9a3b512 100644
--- a/common/include/rofl/common/disjoint_set.h
+++ b/common/include/rofl/common/disjoint_set.h
@@ -82,7 +82,7 @@ namespace rofl {
          */
         size_t size(int n) {
             id_type root = find(n);
-            return nodes_[root].size;
+            return root < (id_type) nodes_.size() ? nodes_[root].size : 0;
         }
 
         /** Returns the number of label sets. 
diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index ad84dc3..e8fdcbf 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -76,8 +76,8 @@ namespace rofl {
     DisjointSet::id_type DisjointSet::join(id_type n1, id_type n2) {
         id_type root1 = find(n1);
         id_type root2 = find(n2);
-        // If n1 and n2 are already in the same set, there is no join to do
-        if (root1 == root2) return nodes_.size();
+        // If an id is invalid or n1 and n2 are already in the same set, there is no join to do
+        if (root1 == root2 || root1 >= (id_type) nodes_.size() || root2 >= (id_type) nodes_.size()) return nodes_.size();
 
         setNum_--;
         if (nodes_[root1].rank < nodes_[root2].rank) {
-- 
2.43.0


From a4f879c694b9682141f98c70305f19e3e0bca971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:03 +0000
Subject: [PATCH 05/40] fix: LabelSet equality compares whole sets, not a
 prefix

The three-iterator std::equal read past the end of the shorter set and
called a set equal to each of its extensions.
---
 common/src/label_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/label_set.cpp b/common/src/label_set.cpp
index be5586b..5e0d2dd 100644
--- a/common/src/label_set.cpp
+++ b/common/src/label_set.cpp
@@ -54,11 +54,11 @@ namespace rofl {
     }
     
     bool LabelSet::operator==(const LabelSet& ls) const {
-        return std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return labels_ == ls.labels_;
     }
     
     bool LabelSet::operator!=(const LabelSet& ls) const {
-        return !std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return labels_ != ls.labels_;
     }
 
     bool LabelSet::insert(Label label) {
-- 
2.43.0


From af3443fbaa80014c3f82f388027b0e58a61e0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:03 +0000
Subject: [PATCH 06/40] fix: LabelSet stream operator is inline, so that two
 units can include it

---
 common/include/rofl/common/label_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/label_set.h b/common/include/rofl/common/label_set.h
index bf72992..88292e5 100644
--- a/common/include/rofl/common/label_set.h
+++ b/common/include/rofl/common/label_set.h
@@ -163,7 +163,7 @@ namespace rofl {
 
 } // end of namespace
 
-std::ostream& operator<<(std::ostream& out, const rofl::LabelSet& ls) {
+inline std::ostream& operator<<(std::ostream& out, const rofl::LabelSet& ls) {
     ls.print(out);
     return out;
 }
-- 
2.43.0


From 25402498e6bdd32d55c9df2d9641dbe8851772e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:34 +0000
Subject: [PATCH 07/40] fix: log2Mod of int64_t counts the leading zeros of all
 64 bits

---
 common/include/rofl/common/numeric_traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index b620365..2a0d2b2 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -258,9 +258,9 @@ struct IntegerTraits<int64_t> {
 
     static IntegerType log2Mod(const IntegerType& i) {
         if (i > 0)
-            return (BIT_NUM - 1 - nlz8(i));
+            return (BIT_NUM - 1 - nlz64(i));
         else if (i < 0)
-            return (BIT_NUM - 1 - nlz8(-i));
+            return (BIT_NUM - 1 - nlz64(-i));
         else
             return 0;  // arbitrary output for invalid argument 0
     }
-- 
2.43.0


From cd45a9a1d87f9efbabe4c9b9206775823c55f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:34 +0000
Subject: [PATCH 08/40] fix: FloatTraits<double> has 11 exponent bits

EXPONENT_MASK, EXPONENT_MAX and SIGN_MASK follow from it.
---
 common/include/rofl/common/numeric_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index 2a0d2b2..81a61e6 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -437,7 +437,7 @@ struct FloatTraits<double> {
 
     static const int BIT_NUM = 64;
     static const int MANTISSA_BITS = 52;
-    static const int EXPONENT_BITS = 8;
+    static const int EXPONENT_BITS = 11;
     static const int EXPONENT_BIAS = 1023;
 
     static constexpr IntegerType MANTISSA_IMPLICIT_BIT = (IntegerType)1 << MANTISSA_BITS;
-- 
2.43.0


From d536f3c8bb5c28071b690ddeea6cbe4e79c3b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 09/40] fix: intervalPow2Int on 64 bit integers, equal values
 and unsigned ranges

1 << level overflowed int for 64 bit types, level 0 shifted by -1, and the
middle of the whole unsigned range was in its lower half.
---
 common/include/rofl/common/morton_sort.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index da42b0d..06b74d6 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -112,10 +112,10 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
     //   mid         00001000  -> 8
     level = IT::BIT_NUM - IT::nlz(IT::removeSign(i1) ^ IT::removeSign(i2));
     if (level < IT::BIT_NUM) {
-        intervMask = (1 << level) - 1;
+        intervMask = ((UnsignedType)1 << level) - 1;
         low = i1 & (~intervMask);
         upp = (low | intervMask);
-        mid = low | (1 << (level - 1));
+        mid = (level > 0) ? (low | ((UnsignedType)1 << (level - 1))) : low;
         // ROFL_VAR1(level);
         // ROFL_MSG("i1          " << std::bitset<IT::BIT_NUM>(i1));
         // ROFL_MSG("i2          " << std::bitset<IT::BIT_NUM>(i2));
@@ -128,7 +128,7 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
         intervMask = ~0;
         low = std::numeric_limits<I>::min();
         upp = std::numeric_limits<I>::max();
-        mid = (upp + low) / 2;
+        mid = low ^ ((UnsignedType)1 << (IT::BIT_NUM - 1));
     }
     return (int)level;
 }
-- 
2.43.0


From b19acad792192feac006e1d155c03971fce8f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 10/40] fix: Morton order of floating point vectors is a strict
 weak order

Negative values with different exponents were truncated before taking the
two's complement, -0 and +0 counted as different signs, and equal coordinates
could hide a small difference of another one: the comparator had cycles, which
is undefined behaviour in std::sort and breaks binary searches.
---
 common/include/rofl/common/morton_sort.h | 52 +++++++++++++-----------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 06b74d6..3a30d8f 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -142,16 +142,23 @@ F xorFloat(const F& fin1,
     using IntegerType = typename FT::IntegerType;
     using UnsignedType = typename FT::UnsignedType;
     F f1, f2;
-    IntegerType fm1, fm2, fe1, fe2, msbPos;
+    IntegerType fm1, fm2, fe1, fe2, fe12, msbPos;
     bool fs1, fs2;
 
-    // Arranges the input floating s.t. fabs(f1) > fabs(f2)
+    // Arranges the input floating s.t. fabs(f1) > fabs(f2); adding zero turns -0 into +0
     if (fabs(fin1) > fabs(fin2)) {
-        f1 = fin1;
-        f2 = fin2;
+        f1 = fin1 + F(0);
+        f2 = fin2 + F(0);
     } else {
-        f1 = fin2;
-        f2 = fin1;
+        f1 = fin2 + F(0);
+        f2 = fin1 + F(0);
+    }
+
+    // Equal values have no different bit: exponentDiff is below the one of any pair of different values
+    if (f1 == f2) {
+        mantissaDiff = 0;
+        exponentDiff = FT::EXPONENT_MIN - FT::MANTISSA_BITS - 2;
+        return F(0);
     }
 
     FT::decompose(f1, fm1, fe1, fs1);
@@ -170,27 +177,26 @@ F xorFloat(const F& fin1,
         return FT::compose(mantissaDiff, exponentDiff, false);
     }
 
-    // Adding the implicit most significant bit to the two mantissas
-    fm1 = fm1 | FT::MANTISSA_IMPLICIT_BIT;
-    if (fe1 < fe2 + FT::BIT_NUM) {
-        fm2 = (fm2 | FT::MANTISSA_IMPLICIT_BIT) >> (fe1 - fe2);
-    } else {
-        fm2 = 0;
-    }
+    // Adding the implicit most significant bit to the two mantissas and one guard bit on the right:
+    // -2^k and its successor with lower exponent differ only there
+    fm1 = (fm1 | FT::MANTISSA_IMPLICIT_BIT) << 1;
+    fm2 = (fm2 | FT::MANTISSA_IMPLICIT_BIT) << 1;
     // Changes the mantissas sign, if f1 and f2 are both negatives
     if (fs1) {
         fm1 = -fm1;
         fm2 = -fm2;
     }
+    // Aligns fm2 to the exponent of fm1 (the sign is kept by the shift, as in the two's complement of integers)
+    fe12 = fe1 - fe2;
+    fm2 = fm2 >> (fe12 < FT::BIT_NUM ? fe12 : (IntegerType)(FT::BIT_NUM - 1));
     mantissaDiff = fm1 ^ fm2;
 
-    if (mantissaDiff == 0) {
-        exponentDiff = -FT::EXPONENT_BIAS;
-        return FT::compose(mantissaDiff, exponentDiff, false);
-    }
-    msbPos = FT::MANTISSA_BITS - rofl::IntegerTraits<IntegerType>::log2Mod(mantissaDiff);
+    msbPos = FT::MANTISSA_BITS + 1 - rofl::IntegerTraits<IntegerType>::log2Mod(mantissaDiff);
     exponentDiff = fe1 - msbPos;
-    mantissaDiff = (mantissaDiff << msbPos) & FT::MANTISSA_MASK;
+    mantissaDiff = ((mantissaDiff << msbPos) >> 1) & FT::MANTISSA_MASK;
+    if (exponentDiff <= FT::EXPONENT_MIN) {
+        return F(0);  // not representable as normal number
+    }
 
     return FT::compose(mantissaDiff, exponentDiff, false);
 }
@@ -384,16 +390,14 @@ bool mortonCmpFloat(const F* v1, const F* v2) {
     using UnsignedType = typename FT::UnsignedType;
     IntegerType currMantissa, currExponent, lastMantissa, lastExponent;
     int lastDim;
-    F currXor, lastXor;
 
     lastDim = 0;
-    lastXor = xorFloat(v1[0], v2[0], lastMantissa, lastExponent);
+    xorFloat(v1[0], v2[0], lastMantissa, lastExponent);
     for (int d = 1; d < Dim; ++d) {
-        currXor = xorFloat(v1[d], v2[d], currMantissa, currExponent);
-        if (lastXor < currXor && lastExponent < currExponent) {
+        xorFloat(v1[d], v2[d], currMantissa, currExponent);
+        if (lastExponent < currExponent) {
             lastDim = d;
             lastExponent = currExponent;
-            lastXor = currXor;
         }
     }
     return (v1[lastDim] < v2[lastDim]);
-- 
2.43.0


From 419c5205ea8cf93b55c1b2abf013be90a193df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 11/40] fix: intervalPow2Float on doubles, equal values and
 signed zeros

1 << level overflowed int for doubles, level 0 shifted by -1, an uninitialised
variable was swapped, and equal coordinates could be chosen by mortonSplitFloat
as the dimension to split.
---
 common/include/rofl/common/morton_sort.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 3a30d8f..72046a3 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -227,15 +227,14 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
     using IntegerType = typename FT::IntegerType;
     using UnsignedType = typename FT::UnsignedType;
     using IT = IntegerTraits<IntegerType>;
-    F f1, f2, powLevel;
     IntegerType fm1, fm2, fe1, fe2, fm12, fe12;
     IntegerType intervMask, mlow, mmid, mupp;
     bool fs1, fs2, fs12;
     int level;
 
-    // Extracts mantissa, exponent and sign from each term
-    FT::decompose(fin1, fm1, fe1, fs1);
-    FT::decompose(fin2, fm2, fe2, fs2);
+    // Extracts mantissa, exponent and sign from each term; adding zero turns -0 into +0
+    FT::decompose(fin1 + F(0), fm1, fe1, fs1);
+    FT::decompose(fin2 + F(0), fm2, fe2, fs2);
 
     // If signs are different, the tree containing the two items
     // spans the whole floating point range
@@ -248,12 +247,9 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
     }
 
     // Arranges the input floating s.t. fabs(f1) < fabs(f2)
-    f2 = fin1;
-    f2 = fin2;
     if (fe1 > fe2 || (fe1 == fe2 && fm1 > fm2)) {
         std::swap(fm1, fm2);
         std::swap(fe1, fe2);
-        std::swap(f1, f2);
     }
     fm1 = fm1 | FT::MANTISSA_IMPLICIT_BIT;
     fm2 = fm2 | FT::MANTISSA_IMPLICIT_BIT;
@@ -269,10 +265,10 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
         level = IT::BIT_NUM - IT::nlz(fm2);
     }
     ROFL_VAR4(fe1, fe2, fe12, level);
-    intervMask = (1 << level) - 1;
+    intervMask = ((IntegerType)1 << level) - 1;
     mlow = fm2 & (~intervMask);
     mupp = (mlow | intervMask);
-    mmid = mlow | (1 << (level - 1));
+    mmid = (level > 0) ? (mlow | ((IntegerType)1 << (level - 1))) : mlow;
     if (mlow != 0) {
         low = FT::compose(mlow ^ FT::MANTISSA_IMPLICIT_BIT, fe2, fs2);
     } else {
@@ -291,7 +287,8 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
     if (fs2) {
         std::swap(low, upp);
     }
-    level = fe2 + level - FT::MANTISSA_BITS;
+    // Equal values: the level is lower than the one of any pair of different values
+    level = (level > 0) ? fe2 + level - FT::MANTISSA_BITS : FT::EXPONENT_MIN - FT::MANTISSA_BITS;
     // ROFL_MSG("intervMask  " << std::bitset<FT::BIT_NUM>(intervMask));
     // ROFL_MSG("mlow        " << std::bitset<FT::BIT_NUM>(mlow) << "  " << low);
     // ROFL_MSG("     ->     " << std::bitset<FT::BIT_NUM>(FT::toInt(low)));
-- 
2.43.0


From 7a8e7659562a2d92199d2db6582d73b167c71c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 12/40] fix: MortonTree::insert keeps the item id when resetId
 is false

---
 common/include/rofl/common/morton_tree.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index c2064fa..7c89d4c 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -175,9 +175,7 @@ class MortonTree {
     void insert(const Item& item, bool resetId = true) {
         Item itemCopy;
         std::copy(item.values, item.values + Dim, itemCopy.values);
-        if (resetId) {
-            itemCopy.id = items_.size();
-        }
+        itemCopy.id = resetId ? (int)items_.size() : item.id;
         items_.push_back(itemCopy);
         ordered_ = false;
     }
-- 
2.43.0


From 6abf224c30af213c5f19248e3fa9ae27da0a58f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 13/40] fix: MortonTree::searchInBox returns exactly the items
 inside the box

The search dereferenced the end iterator, stopped after ten steps, skipped the
items on the corners of the box and never compared an item with the box.
---
 common/include/rofl/common/morton_tree.h | 59 ++++--------------------
 1 file changed, 10 insertions(+), 49 deletions(-)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index 7c89d4c..daebbf9 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -253,60 +253,21 @@ class MortonTree {
     }
 
     void searchInBox(const Item& boxMin, const Item& boxMax, std::vector<ConstIterator>& items) {
-        using TreeIntervalQueue = std::deque<TreeInterval>;
-        TreeIntervalQueue queue;
-        TreeInterval cur, low, upp;
-        ConstIterator itLow, itMid, itUpp;
-
         if (!ordered_) {
             sort();
         }
 
-        ROFL_VAR2(boxMin.toString(), boxMax.toString());
-
-        for (auto it = std::begin(items_); it != std::end(items_); ++it) {
-            ROFL_VAR3(it->toString(), compareItems(*it, boxMin), compareItems(*it, boxMax));
-        }
-        cur.first = std::upper_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
-        cur.second = std::lower_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
-        queue.push_back(cur);
-
-        ROFL_MSG("initial interval " << cur.first->toString() << " : " << cur.second->toString());
-
-        int count = 0;
-        while (!queue.empty() && count < 10) {
-            cur = queue.back();
-            queue.pop_back();
-            std::cout << "\n---\nEXPLORING " << printInter(cur) << std::endl;
-            findTreeBucket(cur.first, cur.second, itLow, itMid, itUpp);
-            ROFL_MSG("splitting\n"
-                     << "  low " << printIt(itLow)
-                     << "  mid " << printIt(itMid)
-                     << "  upp " << printIt(itUpp));
-            if (cur.first == itLow && cur.second == itUpp) {
-                for (auto it = itLow; it != itUpp; ++it) {
-                    items.push_back(it);
-                }
-            } else {
-                low.first = cur.first;
-                low.second = itMid;
-                upp.first = itMid;
-                upp.second = cur.second;
-                // ROFL_VAR2(printInter(low), printInter(upp));
-                if (low.first != low.second) {
-                    ROFL_MSG("added LOW interval: " << printInter(low));
-                    queue.push_back(low);
-                } else {
-                    ROFL_MSG("discarted LOW interval: " << printInter(low));
-                }
-                if (upp.first != upp.second) {
-                    ROFL_MSG("added UPP interval: " << printInter(upp));
-                    queue.push_back(upp);
-                } else {
-                    ROFL_MSG("discarted UPP interval: " << printInter(upp));
-                }
+        // The items of the box lie between its extreme corners in Morton order
+        ConstIterator first = std::lower_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
+        ConstIterator last = std::upper_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
+        for (ConstIterator it = first; it < last; ++it) {
+            bool inside = true;
+            for (size_t d = 0; d < Dim && inside; ++d) {
+                inside = (boxMin.values[d] <= it->values[d] && it->values[d] <= boxMax.values[d]);
+            }
+            if (inside) {
+                items.push_back(it);
             }
-            count++;
         }
     }
 
-- 
2.43.0


From 2ddd4de8ecd1f5445dd33b62cdda890a8a901a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:52 +0000
Subject: [PATCH 14/40] fix: boustrophedon order moves to an adjacent cell in
 every dimension

With three or more dimensions and an odd size of an inner one, the direction of
a sweep depended only on the next outer index instead of the number of sweeps,
and the order jumped across the interval.
---
 common/include/rofl/common/interval_indices.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 4e5e78f..ff0af9d 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -140,15 +140,15 @@ namespace rofl {
                     indices[d] = res % dimensions[d];
                     res = res / dimensions[d];
                 }
+                // odd is the parity of the number of sweeps along d already completed
                 Index odd = 0;
                 for (int d = Dim - 1; d >= 0; --d) {
                     //ROFL_VAR3(d, indices[d], odd);
+                    Index oddNext = (odd * dimensions[d] + indices[d]) % 2;
                     if (odd) {
-                        odd = indices[d] % 2;
                         indices[d] = dimensions[d] - indices[d] - 1;
-                    } else {
-                        odd = indices[d] % 2;
                     }
+                    odd = oddNext;
                     indices[d] += minval[d];
                 }
                 //ROFL_MSG("indices computed " << indices);
-- 
2.43.0


From a37471ac96364a2c7112320e5cb0492f23551303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:52 +0000
Subject: [PATCH 15/40] fix: IntervalIndices::size is 0 for every empty
 interval

initMinMax with max < min - 1 gives negative dimensions, and their product was
returned as a huge or positive size.
---
 common/include/rofl/common/interval_indices.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index ff0af9d..aa97b92 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -351,6 +351,9 @@ namespace rofl {
          * Returns the number of indices items included in the interval.
          */
         size_t size() const {
+            if (empty()) {
+                return 0;
+            }
             size_t s = 1;
             for (int d = 0; d < Dim; ++d) {
                 s *= dimensions_[d];
-- 
2.43.0


From a3ab39b07a5b23094778bf4d84c7f36eb9993c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:52 +0000
Subject: [PATCH 16/40] fix: PeakFinderD finds every strict peak of the domain

The first visited cell was never tested, and items that had left the window or
were inserted twice could take the second place of the queue and hide a peak.
---
 common/include/rofl/common/peak_finder_d.h | 37 ++++++++++++----------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/common/include/rofl/common/peak_finder_d.h b/common/include/rofl/common/peak_finder_d.h
index a5c6bfd..18cc6ed 100644
--- a/common/include/rofl/common/peak_finder_d.h
+++ b/common/include/rofl/common/peak_finder_d.h
@@ -137,6 +137,25 @@ namespace rofl {
             IntervalType windowInterval, novelInterval;
             int dimMax, incrMax;
 
+            // Inserts the given cell in maxima if it is better than all the other cells of the current window.
+            auto checkPeak = [&](const Indices& cell) {
+                if (enableFilterMinValue_ && !comp_(map(cell), valueMin_)) {
+                    return;
+                }
+                // Extracts the cell itself (possibly inserted several times) and the items outside the current window
+                bool extracted = false;
+                while (!windowItems.empty() && (windowItems.top() == cell || !windowInterval.inside(windowItems.top()))) {
+                    extracted = extracted || (windowItems.top() == cell);
+                    windowItems.popTop();
+                }
+                if (windowItems.empty() || comp_(map(cell), map(windowItems.top()))) {
+                    maxima.push(cell);
+                }
+                if (extracted) {
+                    windowItems.push(cell);
+                }
+            };
+
             // Initializes the window
             auto domainIt = domain_.beginBoustrophedon();
             auto domainEnd = domain_.endBoustrophedon();
@@ -147,6 +166,7 @@ namespace rofl {
                 windowItems.push(*it);
             }
             //ROFL_VAR4(*domainIt, windowInterval, novelInterval, windowItems.size());
+            checkPeak(*domainIt);
             indicesPrev = *domainIt;
             ++domainIt;
 
@@ -168,22 +188,7 @@ namespace rofl {
                     windowItems.popTop();
                 }
 
-                // Checks if current cell *domainIt is not dominated by the top item windowItems.top().
-                // E.g. if comp_ = std::greater<>, then
-                //   !comp_(map(windowItems.top()), map(*domainIt))) -> map(*domainIt) >= map(windowItems.top()
-                if (!enableFilterMinValue_ || comp_(map(*domainIt), valueMin_)) {
-                    if (!windowItems.empty() && !comp_(map(windowItems.top()), map(*domainIt))) {
-                        //ROFL_VAR4(outIdx(*domainIt), map(*domainIt), outIdx(windowItems.top()), map(windowItems.top()));
-                        //ROFL_VAR3(outIdx(windowItems.nextTop()), map(windowItems.nextTop()), comp_(map(*domainIt), map(windowItems.nextTop())));
-                        //Indices curTop = windowItems.top();
-                        //windowItems.popTop();
-                        if (comp_(map(*domainIt), map(windowItems.nextTop()))) {
-                            //insertMax = *domainIt;
-                            maxima.push(*domainIt);
-                        }
-                        //windowItems.push(curTop);
-                    }
-                }
+                checkPeak(*domainIt);
                 indicesPrev = *domainIt;
             }
 
-- 
2.43.0


From ce8e4c0f47201a99d7ed7d10b647cccf6ed1e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:01 +0000
Subject: [PATCH 17/40] fix: ParamMap::read does not stop at a line of 2000 or
 more characters

---
 common/src/param_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 11d738d..7619a0d 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -35,8 +35,8 @@ namespace rofl {
         std::string name;
         std::string value;
         std::string length;
-        char buffer[MAX_LEN];
-        while (in.getline(buffer, MAX_LEN)) {
+        std::string buffer;
+        while (std::getline(in, buffer)) {
             std::stringstream ss(buffer);
             if (ss >> name >> value) {
                 if (name.empty() || name.at(0) == COMMENT) {
-- 
2.43.0


From 9ef77d1d48db0b62edb2099246da42cbc39bea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:01 +0000
Subject: [PATCH 18/40] fix: ParamMap::adaptTildeInPaths does not use the
 erased entry and replaces a leading tilde

---
 common/src/param_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 7619a0d..afe7a90 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -136,11 +136,11 @@ namespace rofl {
             std::string homePath = getenv("HOME");
             homePath += "/"; // getenv() return only /home/user -> need to add another
             // std::cout << "homePath " << homePath << std::endl;
-            if (second.rfind("~") == 0)
+            if (second.rfind("~", 0) == 0)
             {
                 second.replace(0, 2, homePath);
                 std::cout << "second WITHOUT tilde: " << second << std::endl;
-                setParam(first, second);
+                it->second = second;
             }
         }
     }
-- 
2.43.0


From da53073c3389d0edb9dcd8a0342f3a39046f2bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:01 +0000
Subject: [PATCH 19/40] fix: Profiler::updateStat divides by the number of
 measurements including the new one

---
 common/src/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/profiler.cpp b/common/src/profiler.cpp
index 77122f3..4d4e120 100644
--- a/common/src/profiler.cpp
+++ b/common/src/profiler.cpp
@@ -31,7 +31,7 @@ namespace rofl {
         } else {
             // Computes mean value and variance with online Welford’s method 
             double timeAvgOld = it->second.timeAvg;
-            it->second.timeAvg += (time - timeAvgOld) / (double) it->second.count;
+            it->second.timeAvg += (time - timeAvgOld) / (double) (it->second.count + 1);
             it->second.timeVar += (time - it->second.timeAvg) * (time - timeAvgOld);
             if (time < it->second.timeMin) {
                 it->second.timeMin = time;
-- 
2.43.0


From 6de4a5dee661a38f09a1159bd49ba9d66552711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:01 +0000
Subject: [PATCH 20/40] fix: Profiler variance is computed from the squared
 deviations, not from the mean

---
 common/include/rofl/common/profiler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index f6a55d6..02c3031 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -53,7 +53,7 @@ namespace rofl {
 
             double getVariance() const {
                 if (count > 1) {
-                    return (timeAvg / (count - 1));
+                    return (timeVar / (count - 1));
                 } else {
                     return 0.0;
                 }
-- 
2.43.0


From c6fafef93a33614c827175c1a7fbe16993630b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:01 +0000
Subject: [PATCH 21/40] fix: the scoped timer macro lives until the end of the
 scope

---
 common/include/rofl/common/profiler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index 02c3031..257ba64 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -23,7 +23,9 @@
 #include <chrono>
 #include <rofl/common/macros.h>
 
-#define ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE rofl::ScopedTimer(ROFL_FILENAME(__FILE__) + "_" + __FUNCTION__ + "_" + ROFL_COMMON_STRING_LINE);
+#define ROFL_COMMON_PROFILER_DETAIL_CONCAT(X,Y) X##Y
+#define ROFL_COMMON_PROFILER_DETAIL_CONCAT_OP(X,Y) ROFL_COMMON_PROFILER_DETAIL_CONCAT(X,Y)
+#define ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE rofl::ScopedTimer ROFL_COMMON_PROFILER_DETAIL_CONCAT_OP(roflScopedTimer,__LINE__)(ROFL_FILENAME(__FILE__) + "_" + __FUNCTION__ + "_" + ROFL_COMMON_STRING_LINE);
 
 namespace rofl {
 
-- 
2.43.0


From c4b63d8974cb0e02c362f75c18847c0f44b44c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:01 +0000
Subject: [PATCH 22/40] fix: ROFL_VAR7 prints the value of its sixth argument

---
 common/include/rofl/common/macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/macros.h b/common/include/rofl/common/macros.h
index ed0499d..a75de51 100644
--- a/common/include/rofl/common/macros.h
+++ b/common/include/rofl/common/macros.h
@@ -52,7 +52,7 @@
 
 #define ROFL_VAR7(X1,X2,X3,X4,X5,X6,X7) std::cout << ROFL_FILENAME(__FILE__) << "," << __LINE__ << ": " << (#X1) << " " << (X1) \
    << ", " << (#X2) << " " << (X2) << ", " << (#X3) << " " << (X3) << ", " << (#X4) << " " << (X4) \
-   << ", " << (#X5) << " " << (X5) << ", " << (#X6) << " " << (X7) << ", " << (#X7) << " " << (X7) << std::endl;
+   << ", " << (#X5) << " " << (X5) << ", " << (#X6) << " " << (X6) << ", " << (#X7) << " " << (X7) << std::endl;
 
 #define ROFL_ASSERT(COND) if (!(COND)) { std::cerr << __FILE__ << "," << __LINE__ << ": assertion failed on " << #COND << std::endl; exit(-1); }
 
-- 
2.43.0


From 279242d2340067fb259a33eab8735edb432e9973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:34 +0000
Subject: [PATCH 23/40] fix: evaluatePnebiVector starts the recursion from an
 order that depends on x

---
 common/src/functions.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index bb9f57b..2d80d4e 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -176,12 +176,13 @@ namespace rofl {
             return;
         }
 
-        // Computes bessel function using back recursion
+        // Computes bessel function using back recursion. The starting order must grow with
+        // sqrt(x) too, otherwise the recursion does not converge for large x.
         factor = 2.0 / x;
         seqPrev = 0.0; // bip
         seqCurr = 1.0; // bi
         seqNext = 0.0; // bim
-        for (int k = 2 * (n + (int) sqrt(40.0 * n)); k >= 0; --k) {
+        for (int k = 2 * (n + (int) sqrt(40.0 * std::max((double) n, std::min(x, 1.0e+6)))); k >= 0; --k) {
             seqNext = seqPrev + factor * k * seqCurr;
             seqPrev = seqCurr;
             seqCurr = seqNext;
-- 
2.43.0


From c0aa453edcced40c9049f88dfaf3d80f77badb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:34 +0000
Subject: [PATCH 24/40] fix: PnebiLUT::eval accepts the maximum order stored in
 the LUT

---
 common/src/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index 2d80d4e..f665bab 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -275,7 +275,7 @@ namespace rofl {
 
         // Checks that 1) argument x is positive; 2) order of PNEBI has been computed;
         if (x < 0.0) x = -x;
-        ROFL_ASSERT_VAR2(0 <= k && k < orderMax_, k, orderMax_);
+        ROFL_ASSERT_VAR2(0 <= k && k <= orderMax_, k, orderMax_);
 
         PnebiPoint tmp(0, x);
         auto upper = std::upper_bound(lut_.begin(), lut_.end(), tmp);
-- 
2.43.0


From 4e7892c2e99d331709a1dd0ca7da96f580abc82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:02 +0000
Subject: [PATCH 25/40] fix: local XY coordinates scale the longitude by the
 meters per degree at the latitude of the origin

---
 geometry/src/gis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/src/gis.cpp b/geometry/src/gis.cpp
index f9c04ab..2543c84 100644
--- a/geometry/src/gis.cpp
+++ b/geometry/src/gis.cpp
@@ -44,12 +44,12 @@ namespace rofl {
     }
 
     void convertLatLonToLocalXY(Scalar latOrg, Scalar lonOrg, Scalar lat, Scalar lon, Scalar& x, Scalar& y) {
-        x = (lon - lonOrg) * meterPerDegLon(lonOrg);
+        x = (lon - lonOrg) * meterPerDegLon(latOrg);
         y = (lat - latOrg) * meterPerDegLat(latOrg);
     }
 
     void convertLocalXYToLatLon(Scalar latOrg, Scalar lonOrg, Scalar x, Scalar y, Scalar& lat, Scalar& lon) {
-        lon = x / meterPerDegLon(lonOrg) + lonOrg;
+        lon = x / meterPerDegLon(latOrg) + lonOrg;
         lat = y / meterPerDegLat(latOrg) + latOrg;
     }
 }
-- 
2.43.0


From b9c5406a2cc87b8a22c42cae904fc56694bba56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:02 +0000
Subject: [PATCH 26/40] fix: Vector6 and Vector7 have 6 and 7 components

---
 geometry/include/rofl/geometry/types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometry/include/rofl/geometry/types.h b/geometry/include/rofl/geometry/types.h
index 9ccf8b5..fce2a55 100755
--- a/geometry/include/rofl/geometry/types.h
+++ b/geometry/include/rofl/geometry/types.h
@@ -83,8 +83,8 @@ using VectorTransform3 = std::vector<Transform3, Eigen::aligned_allocator<Transf
 
 using Vector4 = Eigen::Matrix<Scalar, 4, 1>;
 using Vector5 = Eigen::Matrix<Scalar, 5, 1>;
-using Vector6 = Eigen::Matrix<Scalar, 5, 1>;
-using Vector7 = Eigen::Matrix<Scalar, 5, 1>;
+using Vector6 = Eigen::Matrix<Scalar, 6, 1>;
+using Vector7 = Eigen::Matrix<Scalar, 7, 1>;
 
 using Matrix2 = Eigen::Matrix<Scalar, 2, 2>;
 using Matrix3 = Eigen::Matrix<Scalar, 3, 3>;
@@ -130,8 +130,8 @@ using VectorTransform3 = std::vector<Transform3>;
 
 using Vector4 = Eigen::Matrix<Scalar, 4, 1>;
 using Vector5 = Eigen::Matrix<Scalar, 5, 1>;
-using Vector6 = Eigen::Matrix<Scalar, 5, 1>;
-using Vector7 = Eigen::Matrix<Scalar, 5, 1>;
+using Vector6 = Eigen::Matrix<Scalar, 6, 1>;
+using Vector7 = Eigen::Matrix<Scalar, 7, 1>;
 
 using Matrix2 = Eigen::Matrix<Scalar, 2, 2>;
 using Matrix3 = Eigen::Matrix<Scalar, 3, 3>;
-- 
2.43.0


From b76ccab49e3edaf732859871bcf587d860cfcf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:28 +0000
Subject: [PATCH 27/40] fix: BoxRegistration corrects a reflection along the
 smallest singular value in 3D

---
 geometry/include/rofl/geometry/box_registration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 36c1452..4ab7ee5 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -190,7 +190,7 @@ namespace rofl {
         else
             d = -1.0;
         SquareMatrix I = SquareMatrix::Identity();
-        I(1, 1) = d;
+        I(DIM - 1, DIM - 1) = d;
 
         R = svd.matrixV() * I * svd.matrixU().transpose();
         transl = meanDst - R * meanSrc;
-- 
2.43.0


From c487a5f1907b74b7dfab074058e00788de506f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:28 +0000
Subject: [PATCH 28/40] fix: BoxRegistration initial estimate is a rotation,
 not a reflection

---
 geometry/include/rofl/geometry/box_registration.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 4ab7ee5..e91329d 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -234,6 +234,10 @@ namespace rofl {
                 << "eigen vectors:\n" << eigenSolver.eigenvectors() << "\n";
 
         transf.linear() = eigenSolver.eigenvectors() * perm_;
+        // Eigenvectors are defined up to the sign: avoids reflections (the box is symmetric)
+        if (transf.linear().determinant() < 0.0) {
+            transf.linear().col(0) *= -1.0;
+        }
         transf.translation() = centroid;
         transf.makeAffine();
     }
-- 
2.43.0


From 411aa5afcd6d13c142e65055a08bc0eb7d54d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:20 +0000
Subject: [PATCH 29/40] fix: CorrespondenceGraphAssociation::associate returns
 the maximum cliques

---
 .../correspondence_graph_association.h        |  2 +-
 .../src/correspondence_graph_association.cpp  | 31 +++++++++----------
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index a29fba0..a7368c4 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -195,7 +195,7 @@ namespace rofl {
         
         void convertToAssociation(const LabelSet& correspNodes, AssociationHypothesis& assocHyp) const;
         
-        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes);
+        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax);
     };
 
 } // end of namespace
diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 5d8aeed..110d9e6 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -114,7 +114,8 @@ namespace rofl {
         for (int i = 0; i < nodes_.size(); ++i) {
             candidateNodes.insert(i);
         }
-        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes);
+        cliquesMax.clear();
+        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes, cliquesMax);
 
         //        for (auto& node0 : nodeList) {
         //            cliqueCur = nodes_[node0].adjacents.unionSet(node0);
@@ -177,28 +178,26 @@ namespace rofl {
         //        }
     }
 
-    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes) {
-        static int iterCount = 0;
-
-        iterCount++;
-        ROFL_VAR1(iterCount);
-        if (iterCount >= 200) {
-            return;
-        }
-
+    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax) {
         if (candidateNodes.empty() && excludedNodes.empty()) {
-            //return cliqueCur;
-            ROFL_MSG("maximum clique: " << cliqueCur);
+            // cliqueCur is maximal: keeps only the cliques with the largest size
+            if (!cliquesMax.empty() && cliqueCur.size() > cliquesMax.back().size()) {
+                cliquesMax.clear();
+            }
+            if (cliquesMax.empty() || cliqueCur.size() == cliquesMax.back().size()) {
+                ROFL_MSG("maximum clique: " << cliqueCur);
+                cliquesMax.push_back(cliqueCur);
+            }
             return;
         }
 
-        for (auto& n : candidateNodes) {
-            ROFL_VAR4(n, cliqueCur, candidateNodes, excludedNodes);
+        // Visits a copy since candidateNodes is changed inside the loop
+        LabelSet candidateNodesCopy(candidateNodes);
+        for (auto& n : candidateNodesCopy) {
             LabelSet cliqueCurNew = cliqueCur.unionSet(n);
             LabelSet candidateNodesNew = candidateNodes.intersectionSet(nodes_[n].adjacents);
             LabelSet excludedNodesNew = excludedNodes.intersectionSet(nodes_[n].adjacents);
-            ROFL_VAR4(n, cliqueCurNew, candidateNodesNew, excludedNodesNew);
-            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew);
+            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew, cliquesMax);
             candidateNodes.remove(n);
             excludedNodes.insert(n);
         }
-- 
2.43.0


From 42ce4d87ccbf6c9f1472c4c3052dfcac7c48be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:20 +0000
Subject: [PATCH 30/40] fix: CorrespondenceGraphAssociation can be used again
 with new items

---
 .../include/rofl/geometry/correspondence_graph_association.h  | 4 +++-
 geometry/src/correspondence_graph_association.cpp             | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index a7368c4..cdd8528 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -122,6 +122,7 @@ namespace rofl {
         template <typename It, typename Dist>
         void insertSrc(It beg, It end, Dist dist) {
             numSrc_ = std::distance(beg, end);
+            distancesSrc_.clear();
             distancesSrc_.reserve(numSrc_ * (numSrc_ - 1) / 2);
             insertPairDistances(beg, end, dist, std::back_inserter(distancesSrc_));
 
@@ -151,7 +152,8 @@ namespace rofl {
         template <typename It, typename Dist>
         void insertDst(It beg, It end, Dist dist) {
             numDst_ = std::distance(beg, end);
-            distancesSrc_.reserve(numDst_ * (numDst_ - 1) / 2);
+            distancesDst_.clear();
+            distancesDst_.reserve(numDst_ * (numDst_ - 1) / 2);
             insertPairDistances(beg, end, dist, std::back_inserter(distancesDst_));
 
             std::sort(distancesDst_.begin(), distancesDst_.end(),
diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 110d9e6..26fd175 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -52,6 +52,7 @@ namespace rofl {
         // Creates the list of correspondence nodes.
         // Each node represents an association between a source and a destination
         // point/item. 
+        nodes_.clear();
         nodes_.reserve(numSrc_ * numDst_);
         node.adjacents.clear();
         for (int is = 0; is < numSrc_; ++is) {
-- 
2.43.0


From b999b704eb74c3f3e49a1da801e70166bff040bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:10 +0000
Subject: [PATCH 31/40] fix: HoughPlaneDetector::insert accepts less than 8
 bins of phi

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index a8d08fd..2432d75 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -198,7 +198,7 @@ namespace rofl {
     void HoughPlaneDetector::insert(const VectorVector3& points) {
         int indicesAngle[3];
         rofl::Scalar rho;
-        int phiNotify = phiNum_ / 8;
+        int phiNotify = std::max(1, phiNum_ / 8);
 
         // Computes the Hough Transform (HT) by incrementing counting cells
         for (indicesAngle[0] = 0; indicesAngle[0] < thetaNum_; ++indicesAngle[0]) {
-- 
2.43.0


From fbe31d691b800a0324fbf325242d293c713b2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:10 +0000
Subject: [PATCH 32/40] fix: HoughPlaneDetector::getPlaneParam(itheta, iphi,
 irho) includes rhoMin

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index 2432d75..1203e41 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -174,7 +174,7 @@ namespace rofl {
         ROFL_ASSERT_VAR2(0 <= irho && irho < rhoNum_, irho, rhoNum_);
         PlaneParam planeParam;
         const Vector3 normal = getNormal(itheta, iphi);
-        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho);
+        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho + rhoMin_);
         return planeParam;
     }
 
-- 
2.43.0


From cfeca9f44c722f8a1e92d67825b9d34a9e043f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:10 +0000
Subject: [PATCH 33/40] fix: HoughPlaneDetector::insert does not count points
 below rhoMin in the first bin

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index 1203e41..d453c46 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -212,7 +212,7 @@ namespace rofl {
                 for (auto &p : points) {
                     rho = normal(0) * p(0) + normal(1) * p(1) + normal(2) * p(2);
                     //indicesAngle[2] = (int) round((rho - rhoMin_) / rhoRes_);
-                    indicesAngle[2] = (int) ((rho - rhoMin_) / rhoRes_);
+                    indicesAngle[2] = (int) floor((rho - rhoMin_) / rhoRes_);
                     if (0 <= indicesAngle[2] && indicesAngle[2] < rhoNum_) {
                         //houghTransform_.value( { itheta, iphi, irho })++;
                         houghTransform_.value(indicesAngle)++;
-- 
2.43.0


From b96f9a1f817e9fb73ad4473f464787c9063b1aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:10 +0000
Subject: [PATCH 34/40] fix: HoughLineDetector::insert computes the Hough
 transform and spectrum

---
 geometry/src/hough_line_detector.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/geometry/src/hough_line_detector.cpp b/geometry/src/hough_line_detector.cpp
index 402f15d..781db4d 100644
--- a/geometry/src/hough_line_detector.cpp
+++ b/geometry/src/hough_line_detector.cpp
@@ -128,7 +128,29 @@ namespace rofl {
     }
 
     void HoughLineDetector::insert(const VectorVector2& points) {
+        Scalar rho;
+        int irho;
 
+        // Computes the Hough Transform (HT) by incrementing counting cells
+        for (int itheta = 0; itheta < thetaNum_; ++itheta) {
+            const Vector2 &normal = normalLut_[itheta];
+            for (auto &p : points) {
+                rho = normal(0) * p(0) + normal(1) * p(1);
+                irho = (int) floor((rho - rhoMin_) / rhoRes_);
+                if (0 <= irho && irho < rhoNum_) {
+                    houghTransform_.value({itheta, irho})++;
+                }
+            }
+        }
+
+        // Computes Hough Spectrum (HS)
+        for (int itheta = 0; itheta < thetaNum_; ++itheta) {
+            houghSpectrum_[itheta] = 0;
+            for (irho = 0; irho < rhoNum_; ++irho) {
+                Counter htVal = houghTransform_.value({itheta, irho});
+                houghSpectrum_[itheta] += htVal * htVal;
+            }
+        }
     }
 
     void HoughLineDetector::findSpectrumIndicesMax(std::vector<Indices1>& indicesMaxima) const {
-- 
2.43.0


From 7e94d5986e6afce6cde26bd12b2989e0d76d6743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:10 +0000
Subject: [PATCH 35/40] fix: HoughLineDetector defines the declared iterator
 insert and findLines with line parameters

---
 .../rofl/geometry/hough_line_detector.h       | 22 +++++++++++++++++--
 geometry/src/hough_line_detector.cpp          | 11 ++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/geometry/include/rofl/geometry/hough_line_detector.h b/geometry/include/rofl/geometry/hough_line_detector.h
index e6d664e..25de409 100644
--- a/geometry/include/rofl/geometry/hough_line_detector.h
+++ b/geometry/include/rofl/geometry/hough_line_detector.h
@@ -213,8 +213,8 @@ namespace rofl {
         /**
          * Returns the detected planes using Hough spectrum and transform
          * with non-maximum suppression
-         * @param planeParams the plane params of Cartesian equation
-         *    x * planeParams[i](0) + y * planeParams[i](1) + z * planeParams[i](2) + planeParams[i](3) = 0
+         * @param linesParams the line params of Cartesian equation
+         *    x * linesParams[i](0) + y * linesParams[i](1) + linesParams[i](2) = 0
          */
         void findLines(VectorLineParam& linesParams);
 
@@ -232,6 +232,24 @@ namespace rofl {
         int irhoWin_;
     };
 
+    // ------------------------------------------------------------------------
+    // DEFINITION OF METHODS WITH TEMPLATE ARGUMENTS
+    // ------------------------------------------------------------------------
+
+    template <typename Iterator, typename Converter>
+    void HoughLineDetector::insert(Iterator beg, Iterator end, const Converter& converter) {
+        setZero();
+
+        VectorVector2 points;
+        points.resize(std::distance(beg, end));
+        auto pit = points.begin();
+        for (auto it = beg; it != end; ++it, ++pit) {
+            *pit = converter(*it);
+        }
+
+        insert(points);
+    }
+
 } // end of namespace rofl
 
 #endif /* GEOMETRY_INCLUDE_ROFL_GEOMETRY_HOUGH_LINE_DETECTOR_H_ */
diff --git a/geometry/src/hough_line_detector.cpp b/geometry/src/hough_line_detector.cpp
index 781db4d..04f2ea2 100644
--- a/geometry/src/hough_line_detector.cpp
+++ b/geometry/src/hough_line_detector.cpp
@@ -213,4 +213,15 @@ namespace rofl {
         }
     }
 
+    void HoughLineDetector::findLines(VectorLineParam& linesParams) {
+        std::vector<Indices2> linesIndices;
+
+        findLines(linesIndices);
+        linesParams.resize(linesIndices.size());
+        for (int i = 0; i < linesIndices.size(); ++i) {
+            const Vector2 &normal = normalLut_[linesIndices[i][0]];
+            linesParams[i] << normal(0), normal(1), -(rhoRes_ * linesIndices[i][1] + rhoMin_);
+        }
+    }
+
 } // end of namespace
-- 
2.43.0


From 40291d089ecda61486de6938e3bee11a617ad96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:10 +0000
Subject: [PATCH 36/40] fix: VectorArray operators work componentwise and
 compile

---
 common/include/rofl/common/vector_array.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b242922..b1b512b 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -40,7 +40,7 @@ namespace rofl {
 		Type operator+(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] + other[d];
 			}
 			return res;
 		}
@@ -48,7 +48,7 @@ namespace rofl {
 		Type operator-(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] - other[d];
 			}
 			return res;
 		}
@@ -56,7 +56,7 @@ namespace rofl {
 		Type operator*(const Value& scalar)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = scalar * (*this)[d];
+				res[d] = scalar * (*this)[d];
 			}
 			return res;
 		}
@@ -64,7 +64,7 @@ namespace rofl {
 		Type operator*(const Type& other)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] * other[d];
+				res[d] = (*this)[d] * other[d];
 			}
 			return res;
 		}
@@ -72,7 +72,7 @@ namespace rofl {
 		Type operator/(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] / other[d];
+				res[d] = (*this)[d] / other[d];
 			}
 			return res;
 		}
-- 
2.43.0


From b46028a3a15032b173c48377ab875cc3560090b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:40 +0000
Subject: [PATCH 37/40] fix: ParamMap::adaptTildeInPaths leaves values like
 ~name unchanged

---
 common/src/param_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index afe7a90..e737e8c 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -136,7 +136,7 @@ namespace rofl {
             std::string homePath = getenv("HOME");
             homePath += "/"; // getenv() return only /home/user -> need to add another
             // std::cout << "homePath " << homePath << std::endl;
-            if (second.rfind("~", 0) == 0)
+            if (second == "~" || second.rfind("~/", 0) == 0)
             {
                 second.replace(0, 2, homePath);
                 std::cout << "second WITHOUT tilde: " << second << std::endl;
-- 
2.43.0


From 74fa330db0110b1a172661f8d142ef74d1f10496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:41 +0000
Subject: [PATCH 38/40] fix: VectorArray scalar product by one of its own
 components

---
 common/include/rofl/common/vector_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b1b512b..dd78695 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -85,8 +85,9 @@ namespace rofl {
 		}
 
 		Type& operator*=(const Value& scalar) {
+			const Value factor = scalar; // scalar may be a component of this vector
 			for (size_t d = 0; d < Dim; ++d) {
-				(*this)[d] *= scalar;
+				(*this)[d] *= factor;
 			}
 			return *this;
 		}
-- 
2.43.0


From 25ed7c9d02046b5fb4c635731e99861f362f951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:41 +0000
Subject: [PATCH 39/40] fix: getDirectoryFiles skips loops of symbolic links
 instead of throwing

---
 common/src/io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/src/io.cpp b/common/src/io.cpp
index 2d3da94..97efd5e 100644
--- a/common/src/io.cpp
+++ b/common/src/io.cpp
@@ -51,7 +51,8 @@ namespace rofl {
         const fs::path dirFS{dirPath};
 
         for (const fs::directory_entry& i : fs::directory_iterator(dirFS)) {
-            if (i.is_regular_file()) {
+            std::error_code ec; // e.g. a loop of symbolic links is not a regular file
+            if (i.is_regular_file(ec)) {
                 matchingFiles.push_back(i.path().string());
             }
         }
-- 
2.43.0


From c2c546ef70996333a8ea1ab5c1f617d38e410aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 40/40] fix: adaptTildeInPaths leaves the paths alone when HOME
 is not set

---
 common/src/param_map.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index e737e8c..5f5ae83 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -128,12 +128,17 @@ namespace rofl {
 
     void ParamMap::adaptTildeInPaths()
     {
+        const char *home = getenv("HOME");
+        if (home == nullptr)
+        {
+            return; // no home directory to put in place of the tilde
+        }
         for (auto it = table_.begin(); it != table_.end(); ++it)
         {
             auto first = it->first;
             auto second = it->second;
             // std::cout << "second with tilde: " << second << std::endl;
-            std::string homePath = getenv("HOME");
+            std::string homePath = home;
             homePath += "/"; // getenv() return only /home/user -> need to add another
             // std::cout << "homePath " << homePath << std::endl;
             if (second == "~" || second.rfind("~/", 0) == 0)
-- 
2.43.0

