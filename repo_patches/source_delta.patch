From 647b80119c7fd9546b0bd2134e2c5ccdbaf68627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 01/20] fix: BigInteger::multiplyPow2 zeroed the wrong digits
 for shifts that are not a multiple of 32

Shifts of 33 bits or more that are not a multiple of 32 cleared digit z
(which holds part of the result) and left stale data in digit 0.
---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 99e345c..59c61b2 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -246,7 +246,7 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
         }
         _digits[z] = high << s;
         for (unsigned i = z; i != 0; --i) {
-            _digits[i] = 0;
+            _digits[i - 1] = 0;
         }
         _size = (_digits[size] == 0) ? size: size + 1;
     }
-- 
2.43.0


From 48d70ca4214e928e3fe864cb3cce44d767c06238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 02/20] fix: BigInteger subtraction stripped leading zeros of
 the input, not the result

When the result is stored over the subtrahend, m and m1 are different
arrays, and leading zero digits of the difference were kept.
---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 59c61b2..b533c25 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -103,7 +103,7 @@ unsigned _sub(std::uint32_t * const m,
     // If we subtracted anything from the most significant digit in m1, strip
     // any leading zeroes that may have been introduced.
     if (i == size1) {
-        while (m1[i - 1] == 0) { --i; }
+        while (m[i - 1] == 0) { --i; }
         return i;
     }
     // Otherwise, copy the remaining digits from m1 to m.
-- 
2.43.0


From ae43b4608bb15def992b08abf769758c385298c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 03/20] fix: BigInteger::multiply was wrong when the result
 overwrites the second factor

Multiplying by an integer with more digits, or by the integer itself,
overwrote digits of an input of the long multiplication before they were
read.
---
 src/BigInteger.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index b533c25..2c45841 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -33,6 +33,7 @@
 #include "lsst/sphgeom/BigInteger.h"
 
 #include <algorithm>
+#include <vector>
 
 
 namespace lsst {
@@ -114,8 +115,8 @@ unsigned _sub(std::uint32_t * const m,
 }
 
 // `_mul` computes the product of m1 and m2 and stores the result in m,
-// which may equal either m1 or m2. It assumes that m1 has at least as many
-// digits as m2, and returns the the number of digits in the product.
+// which may equal m1, but must not overlap m2. It returns the the number of
+// digits in the product.
 unsigned _mul(std::uint32_t * const m,
               std::uint32_t const * const m1,
               std::uint32_t const * const m2,
@@ -126,8 +127,8 @@ unsigned _mul(std::uint32_t * const m,
     // digit counts. A requirement for anything fancier involves enough
     // complexity that switching to GMP is definitely warranted.
     //
-    // The only small subtlety here is that because m is allowed to alias m1
-    // or m2, we compute products of m2 from most to least significant digit of
+    // The only small subtlety here is that because m is allowed to alias m1,
+    // we compute products of m2 from most to least significant digit of
     // m1. This way no as yet unprocessed input digits are overwritten.
     unsigned const size = size1 + size2;
     for (unsigned i = size1; i < size; ++i) {
@@ -260,10 +261,12 @@ BigInteger & BigInteger::multiply(BigInteger const & b) {
         return *this;
     }
     _checkCapacity(_size + b._size);
-    if (_size >= b._size) {
-        _size = _mul(_digits, _digits, b._digits, _size, b._size);
+    if (this == &b) {
+        // _mul does not allow its output to alias its second input.
+        std::vector<std::uint32_t> const digits(_digits, _digits + _size);
+        _size = _mul(_digits, _digits, digits.data(), _size, _size);
     } else {
-        _size = _mul(_digits, b._digits, _digits, b._size, _size);
+        _size = _mul(_digits, _digits, b._digits, _size, b._size);
     }
     return *this;
 }
-- 
2.43.0


From 599292c51e84bd3daab1b97b86e06c491e5e424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 04/20] fix: avoid signed overflow in BigInteger::setTo for the
 most negative integer

---
 include/lsst/sphgeom/BigInteger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lsst/sphgeom/BigInteger.h b/include/lsst/sphgeom/BigInteger.h
index b64ea99..c3dc417 100644
--- a/include/lsst/sphgeom/BigInteger.h
+++ b/include/lsst/sphgeom/BigInteger.h
@@ -89,7 +89,7 @@ public:
     /// `setTo` sets this integer to the given signed 64 bit integer value.
     void setTo(std::int64_t x) {
         if (x < 0) {
-            setTo(static_cast<std::uint64_t>(-x));
+            setTo(-static_cast<std::uint64_t>(x));
             _sign = -1;
         } else {
             setTo(static_cast<std::uint64_t>(x));
-- 
2.43.0


From 4d6905deb83f9c34713371f21d06321066319180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 05/20] fix: subtracting an offset from a RangeSet iterator
 moved it forward

---
 include/lsst/sphgeom/RangeSet.h | 2 +-
 src/RangeSet.cc                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/RangeSet.h b/include/lsst/sphgeom/RangeSet.h
index e0e7ac4..ea173bc 100644
--- a/include/lsst/sphgeom/RangeSet.h
+++ b/include/lsst/sphgeom/RangeSet.h
@@ -149,7 +149,7 @@ public:
         Iterator operator--(int) { Iterator i(*this); p -= 2; return i; }
 
         Iterator operator+(ptrdiff_t n) const { return Iterator(p + 2 * n); }
-        Iterator operator-(ptrdiff_t n) const { return Iterator(p + 2 * n); }
+        Iterator operator-(ptrdiff_t n) const { return Iterator(p - 2 * n); }
 
         Iterator & operator+=(ptrdiff_t n) { p += 2 * n; return *this; }
         Iterator & operator-=(ptrdiff_t n) { p -= 2 * n; return *this; }
diff --git a/src/RangeSet.cc b/src/RangeSet.cc
index 30b8f02..c64a13e 100644
--- a/src/RangeSet.cc
+++ b/src/RangeSet.cc
@@ -70,7 +70,7 @@ struct RangeIter {
     RangeIter operator--(int) { RangeIter i(*this); ptr -= 2; return i; }
 
     RangeIter operator+(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
-    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
+    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr - 2 * n); }
 
     RangeIter & operator+=(ptrdiff_t n) { ptr += 2 * n; return *this; }
     RangeIter & operator-=(ptrdiff_t n) { ptr -= 2 * n; return *this; }
-- 
2.43.0


From d31b61a5f5a99e46b0d1e5a3bc423c1ee9cac5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 06/20] fix: NormalizedAngleInterval::expandTo gave a wrong
 union when both endpoints of the argument are inside

Two wrapping intervals that together cover the circle kept a gap, and a
wrapping interval that contains its argument was replaced by the full
interval.
---
 src/NormalizedAngleInterval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NormalizedAngleInterval.cc b/src/NormalizedAngleInterval.cc
index 7bd2433..2d3bc52 100644
--- a/src/NormalizedAngleInterval.cc
+++ b/src/NormalizedAngleInterval.cc
@@ -217,7 +217,7 @@ NormalizedAngleInterval & NormalizedAngleInterval::expandTo(
                 // Both endpoints of x are in this interval. This interval
                 // either contains x, in which case this interval is the
                 // desired union, or the union is the full interval.
-                if (wraps() != x.wraps()) {
+                if (!contains(x)) {
                     *this = full();
                 }
             } else {
-- 
2.43.0


From 17e47ea5d8302eadaca7559d85ecd72395a91611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 07/20] fix: CompoundRegion::decode read past the end of
 truncated input

The encoded operand sizes were not compared with the number of bytes
left before decoding the operands.
---
 src/CompoundRegion.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CompoundRegion.cc b/src/CompoundRegion.cc
index cae1d51..e81739f 100644
--- a/src/CompoundRegion.cc
+++ b/src/CompoundRegion.cc
@@ -50,7 +50,7 @@ namespace {
 // A version of decodeU64 from codec.h that checks for buffer overruns and
 // increments the buffer pointer it is given.
 std::uint64_t consumeDecodeU64(std::uint8_t const *&buffer, std::uint8_t const *end) {
-    if (buffer + 8 > end) {
+    if (end - buffer < 8) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     std::uint64_t result = decodeU64(buffer);
@@ -113,9 +113,15 @@ std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
     ++buffer;
     std::array<std::unique_ptr<Region>, 2> result;
     std::uint64_t nBytes1 = consumeDecodeU64(buffer, end);
+    if (nBytes1 > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
     result[0] = Region::decode(buffer, nBytes1);
     buffer += nBytes1;
     std::uint64_t nBytes2 = consumeDecodeU64(buffer, end);
+    if (nBytes2 > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
     result[1] = Region::decode(buffer, nBytes2);
     buffer += nBytes2;
     if (buffer != end) {
-- 
2.43.0


From 331e7be8eba678b3e2132fb2c05ed7b480733eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 08/20] fix: ConvexPolygon::decode read the type code before
 checking the input size

---
 src/ConvexPolygon.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 598ee8a..f9ae946 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -368,8 +368,8 @@ std::vector<std::uint8_t> ConvexPolygon::encode() const {
 std::unique_ptr<ConvexPolygon> ConvexPolygon::decode(std::uint8_t const * buffer,
                                                      size_t n)
 {
-    if (buffer == nullptr || *buffer != TYPE_CODE ||
-        n < 1 + 24*3 || (n - 1) % 24 != 0) {
+    if (buffer == nullptr || n < 1 + 24*3 || *buffer != TYPE_CODE ||
+        (n - 1) % 24 != 0) {
         throw std::runtime_error("Byte-string is not an encoded ConvexPolygon");
     }
     std::unique_ptr<ConvexPolygon> poly(new ConvexPolygon);
-- 
2.43.0


From fa6b80c2e9f625aa22b5486ab4b1f471c0f7eed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 09/20] fix: encodeU64 converted its argument to double when
 NO_OPTIMIZED_PATHS is defined

---
 include/lsst/sphgeom/codec.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/codec.h b/include/lsst/sphgeom/codec.h
index dea0c62..8230159 100644
--- a/include/lsst/sphgeom/codec.h
+++ b/include/lsst/sphgeom/codec.h
@@ -98,8 +98,7 @@ inline void encodeU64(std::uint64_t item, std::vector<std::uint8_t> & buffer) {
     auto ptr = reinterpret_cast<std::uint8_t const *>(&item);
     buffer.insert(buffer.end(), ptr, ptr + 8);
 #else
-    union { std::uint64_t u; double d; };
-    d = item;
+    std::uint64_t const u = item;
     buffer.push_back(static_cast<std::uint8_t>(u));
     buffer.push_back(static_cast<std::uint8_t>(u >> 8));
     buffer.push_back(static_cast<std::uint8_t>(u >> 16));
-- 
2.43.0


From e520318c96d56134aaf5f21ac31f3ccf0f5f0957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 10/20] fix: Chunker::valid accepted negative chunk ids

Dividing a small negative chunk id rounds toward zero, so it was
attributed to the first stripe.
---
 src/Chunker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 56a7b28..b9d20b4 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -291,7 +291,7 @@ std::vector<std::int32_t> Chunker::getAllSubChunks(std::int32_t chunkId) const {
 
 bool Chunker::valid(std::int32_t chunkId) const {
     std::int32_t const s = getStripe(chunkId);
-    return s >= 0 and s < _numStripes and
+    return chunkId >= 0 and s < _numStripes and
            getChunk(chunkId, s) < _stripes.at(s).numChunksPerStripe;
 }
 
-- 
2.43.0


From 66eb4f06c3b23c91de0d44998772cbc233925aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 11/20] fix: Chunker's sub-stripe limit was bypassed by integer
 overflow

The product of the number of stripes and of sub-stripes per stripe was
computed in 32 bits before it was checked.
---
 src/Chunker.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index b9d20b4..298c482 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -65,17 +65,19 @@ Chunker::Chunker(std::int32_t numStripes,
                  std::int32_t numSubStripesPerStripe) :
     _numStripes(numStripes),
     _numSubStripesPerStripe(numSubStripesPerStripe),
-    _numSubStripes(numStripes * numSubStripesPerStripe),
-    _maxSubChunksPerSubStripeChunk(0),
-    _subStripeHeight(Angle(PI) / _numSubStripes)
+    _numSubStripes(0),
+    _maxSubChunksPerSubStripeChunk(0)
 {
     if (numStripes < 1 || numSubStripesPerStripe < 1) {
         throw std::runtime_error("The number of stripes and sub-stripes "
                                  "per stripe must be positive");
     }
-    if (numStripes * numSubStripesPerStripe > 180*3600) {
+    // Both numbers are positive, and dividing avoids integer overflow.
+    if (numStripes > 180*3600 / numSubStripesPerStripe) {
         throw std::runtime_error("Sub-stripes are too small");
     }
+    _numSubStripes = numStripes * numSubStripesPerStripe;
+    _subStripeHeight = Angle(PI) / _numSubStripes;
     Angle const stripeHeight = Angle(PI) / _numStripes;
     _stripes.reserve(_numStripes);
     _subStripes.reserve(_numSubStripes);
-- 
2.43.0


From c6d562a8188dae1121027d938da280abc421d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:44 +0000
Subject: [PATCH 12/20] fix: NormalizedAngleInterval::clipTo missed a contained
 argument when rounding made it look larger

---
 src/NormalizedAngleInterval.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/NormalizedAngleInterval.cc b/src/NormalizedAngleInterval.cc
index 2d3bc52..ccff5aa 100644
--- a/src/NormalizedAngleInterval.cc
+++ b/src/NormalizedAngleInterval.cc
@@ -178,8 +178,9 @@ NormalizedAngleInterval & NormalizedAngleInterval::clipTo(
             // either contains x, in which case x is the exact intersection,
             // or the intersection consists of [_a,x._b] ⋃ [x._a,_b].
             // In both cases, the envelope of the intersection is the shorter
-            // of the two intervals.
-            if (getSize() >= x.getSize()) {
+            // of the two intervals. The former case is tested explicitly,
+            // because rounding can make the computed size of x the larger.
+            if (contains(x) || getSize() >= x.getSize()) {
                 *this = x;
             }
         } else {
-- 
2.43.0


From 77ee40263381b58d54c15449f105fa4c97de2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 13/20] fix: Box3d::expandTo a vector with a NaN component made
 an empty box inconsistent

---
 include/lsst/sphgeom/Box3d.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/lsst/sphgeom/Box3d.h b/include/lsst/sphgeom/Box3d.h
index 353d494..65ba609 100644
--- a/include/lsst/sphgeom/Box3d.h
+++ b/include/lsst/sphgeom/Box3d.h
@@ -252,10 +252,9 @@ public:
     ///@{
     /// `expandTo` minimally expands this box to contain b.
     Box3d & expandTo(Vector3d const & b) {
-        _intervals[0].expandTo(b.x());
-        _intervals[1].expandTo(b.y());
-        _intervals[2].expandTo(b.z());
-        return *this;
+        // A vector with a NaN component must not make just some of the
+        // intervals of an empty box non-empty.
+        return expandTo(Box3d(b));
     }
 
     Box3d & expandTo(Box3d const & b) {
-- 
2.43.0


From 0d0c07719b90e8323cbee04330e6fcae0ebed862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 14/20] fix: the center of some empty boxes threw instead of
 being NaN

---
 include/lsst/sphgeom/Box.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lsst/sphgeom/Box.h b/include/lsst/sphgeom/Box.h
index 508468c..8b99601 100644
--- a/include/lsst/sphgeom/Box.h
+++ b/include/lsst/sphgeom/Box.h
@@ -362,6 +362,9 @@ private:
         // of the spatial relation tests.
         if (_lat.isEmpty()) {
             _lon = NormalizedAngleInterval();
+            // Discard the bounds, so that e.g. the center of an empty box
+            // is not an invalid latitude.
+            _lat = AngleInterval();
         } else if (_lon.isEmpty()) {
             _lat = AngleInterval();
         }
-- 
2.43.0


From 62fa651acbdd2a3f603995d5578ff8d3d3a93933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 15/20] fix: Vector3d::normalize indexed out of bounds when the
 y component is NaN

An unordered comparison selects a row of the component table that was
believed to be unreachable, and 255 was used as an index for a read and a
write.
---
 src/Vector3d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vector3d.cc b/src/Vector3d.cc
index f3dc349..5cc91ee 100644
--- a/src/Vector3d.cc
+++ b/src/Vector3d.cc
@@ -60,7 +60,7 @@ double Vector3d::normalize() {
         {0, 2, 1, UNUSED},
         {1, 0, 2, UNUSED},
         {UNUSED, UNUSED, UNUSED, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
+        {0, 2, 1, UNUSED},  // only reached when y is NaN
         {2, 0, 1, UNUSED},
         {1, 2, 0, UNUSED},
         {2, 1, 0, UNUSED}
-- 
2.43.0


From 71df134abff7a7454e793a833a6ebd060c2d6767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 16/20] fix: pixel finder of an ellipse uses a destroyed
 bounding circle

---
 src/PixelFinder.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 718d184..f849b37 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -161,8 +161,9 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
-        Finder<Circle, InteriorOnly> find(
-            s, ellipse->getBoundingCircle(), level, maxRanges);
+        // The finder refers to the circle, which must outlive it.
+        Circle const circle = ellipse->getBoundingCircle();
+        Finder<Circle, InteriorOnly> find(s, circle, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
         Finder<Box, InteriorOnly> find(s, *box, level, maxRanges);
-- 
2.43.0


From ee12f9300e8b94a8ada1c38395ca3410dc752a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 17/20] fix: interior of an ellipse has pixels that are only
 inside its bounding circle

---
 src/PixelFinder.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index f849b37..59fdb44 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -37,6 +37,7 @@
 #include "lsst/sphgeom/CompoundRegion.h"
 #include "ConvexPolygonImpl.h"
 
+#include <algorithm>
 #include <typeinfo>
 
 namespace lsst {
@@ -161,8 +162,17 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
-        // The finder refers to the circle, which must outlive it.
-        Circle const circle = ellipse->getBoundingCircle();
+        // Pixels intersecting the ellipse are among those intersecting its
+        // bounding circle, but pixels inside the bounding circle need not be
+        // inside the ellipse - those inside its inscribed circle are.
+        //
+        // Note that the finder refers to the circle, which must outlive it.
+        Circle circle = ellipse->getBoundingCircle();
+        if (InteriorOnly) {
+            Angle r = std::min(ellipse->getAlpha(), ellipse->getBeta()) -
+                      2.0 * Angle(MAX_ASIN_ERROR);
+            circle = Circle(ellipse->getCenter(), r);
+        }
         Finder<Circle, InteriorOnly> find(s, circle, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
-- 
2.43.0


From fd1f73c8f630ac13dd7e7de0f0e7aa0f755584a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 18/20] fix: envelopes and interiors of compound regions can
 exceed maxRanges

---
 src/PixelFinder.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 59fdb44..71fbf16 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -150,6 +150,25 @@ private:
 };
 
 
+// `limitRanges` reduces the number of ranges in s to at most maxRanges (if that
+// is non-zero), in the same way as a PixelFinder does.
+template <bool InteriorOnly>
+void limitRanges(RangeSet & s, size_t maxRanges) {
+    if (maxRanges == 0) {
+        return;
+    }
+    for (int shift = 2; s.size() > maxRanges; shift += 2) {
+        if (InteriorOnly) {
+            s.complement();
+        }
+        s.simplify(shift);
+        if (InteriorOnly) {
+            s.complement();
+        }
+    }
+}
+
+
 // `findPixels` implements pixel-finding for an arbitrary Region, given a
 // PixelFinder subclass for a specific pixelization.
 template <
@@ -188,12 +207,14 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.join(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else if (auto intersection_region = dynamic_cast<IntersectionRegion const *>(&r)) {
         Region const &region1 = intersection_region->getOperand(0);
         Region const &region2 = intersection_region->getOperand(1);
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.intersection(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else {
         throw std::runtime_error(std::string("PixelFinder: Unsupported type ") + typeid(r).name());
     }
-- 
2.43.0


From 4e5d46911ed36a5bde0dcb17b19415d8bb8be841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 19/20] fix: envelopes of few ranges contain indexes outside
 the universe

---
 src/Mq3cPixelization.cc | 3 ++-
 src/Q3cPixelization.cc  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Mq3cPixelization.cc b/src/Mq3cPixelization.cc
index 269c990..009d5d4 100644
--- a/src/Mq3cPixelization.cc
+++ b/src/Mq3cPixelization.cc
@@ -343,7 +343,8 @@ std::unique_ptr<Region> Mq3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Mq3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Mq3cPixelFinder, false>(r, maxRanges, _level);
+    // Reducing the number of ranges can add indexes that do not identify pixels.
+    return detail::findPixels<Mq3cPixelFinder, false>(r, maxRanges, _level) & universe();
 }
 
 RangeSet Mq3cPixelization::_interior(Region const & r, size_t maxRanges) const {
diff --git a/src/Q3cPixelization.cc b/src/Q3cPixelization.cc
index 686b824..e649fb3 100644
--- a/src/Q3cPixelization.cc
+++ b/src/Q3cPixelization.cc
@@ -341,7 +341,8 @@ std::unique_ptr<Region> Q3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Q3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Q3cPixelFinder, false>(r, maxRanges, _level);
+    // Reducing the number of ranges can add indexes that do not identify pixels.
+    return detail::findPixels<Q3cPixelFinder, false>(r, maxRanges, _level) & universe();
 }
 
 RangeSet Q3cPixelization::_interior(Region const & r, size_t maxRanges) const {
-- 
2.43.0


From 14c99dc809b48939b918148fa83eb5af1a5d0999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 20/20] fix: envelopes of few ranges can miss root pixels

---
 src/PixelFinder.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 71fbf16..a8efcdf 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -129,8 +129,11 @@ private:
         int shift = 2 * (_desiredLevel - level);
         _ranges->insert(index << shift, (index + 1) << shift);
         while (_ranges->size() > _maxRanges) {
-            // Reduce the subdivision level.
-            --_level;
+            // Reduce the subdivision level. Root pixels that are yet to be
+            // visited must not be skipped, so never go below level 0.
+            if (_level > 0) {
+                --_level;
+            }
             shift += 2;
             // When looking for intersecting pixels, ranges are simplified
             // by expanding them outwards, causing nearly adjacent small ranges
-- 
2.43.0

