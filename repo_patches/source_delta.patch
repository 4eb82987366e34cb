From 057bc2bd7b237a36d9526286cc68fa3d4a780f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 01/32] fix: PackedNavBits: compute field range limits in
 integers

pow(2,numBits)-1 in double precision rounds up to 2^numBits for wide
fields, so a value one too large was accepted and silently truncated.
---
 core/lib/GNSSEph/PackedNavBits.cpp | 31 +++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 4881b75..0394bc6 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -41,6 +41,7 @@
  * Engineering units navigation message abstraction.
  */
 #include <math.h>
+#include <stdint.h>
 #include <iostream>
 #include <iomanip>
 
@@ -54,6 +55,18 @@
 namespace gpstk
 {
    using namespace std;
+
+      // Largest values that fit in a field of numBits bits.  (Computing
+      // these in double precision is not exact for wide fields.)
+   static uint64_t maxUnsigned(const int numBits)
+   {
+      return (numBits >= 64) ? ~(uint64_t)0 : ((uint64_t)1 << numBits) - 1;
+   }
+   static int64_t maxSigned(const int numBits)
+   {
+      return (int64_t) maxUnsigned(numBits - 1);
+   }
+
    PackedNavBits::PackedNavBits()
                  : transmitTime(CommonTime::BEGINNING_OF_TIME),
                    parityStatus(psUnknown),
@@ -469,7 +482,7 @@ namespace gpstk
       uint64_t out = (uint64_t) value;
       out /= scale;
 
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1; 
+      uint64_t test = maxUnsigned(numBits);
       if ( out > test )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
@@ -488,8 +501,8 @@ namespace gpstk
       out = (int64_t) value;
       out /= scale;
 
-      int64_t test = pow(static_cast<double>(2),numBits-1) - 1; 
-      if ( ( out > test ) || ( out < -( test + 1 ) ) )
+      int64_t test = maxSigned(numBits);
+      if ( ( out > test ) || ( out < -test - 1 ) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
@@ -501,7 +514,7 @@ namespace gpstk
                                           const int power2 ) 
    {
       uint64_t out = (uint64_t) ScaleValue(value, power2);
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1;
+      uint64_t test = maxUnsigned(numBits);
       if ( out > test )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
@@ -520,8 +533,8 @@ namespace gpstk
          int64_t out;
       };
       out = (int64_t) ScaleValue(value, power2);
-      int64_t test = pow(static_cast<double>(2),numBits-1) - 1; 
-      if ( ( out > test ) || ( out < -( test + 1 ) ) )
+      int64_t test = maxSigned(numBits);
+      if ( ( out > test ) || ( out < -test - 1 ) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
@@ -539,8 +552,8 @@ namespace gpstk
       };
       double temp = Radians/PI;
       out = (int64_t) ScaleValue(temp, power2);
-      int64_t test = pow(static_cast<double>(2), numBits-1) - 1; 
-      if ( ( out > test ) || ( out < -( test + 1 ) ) )
+      int64_t test = maxSigned(numBits);
+      if ( ( out > test ) || ( out < -test - 1 ) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
@@ -722,7 +735,7 @@ namespace gpstk
       uint64_t out = (uint64_t) value;
       out /= scale;
 
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1; 
+      uint64_t test = maxUnsigned(numBits);
       if ( out > test )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
-- 
2.43.0


From c012ebfd71e5c5d3566701b1a095c8416c820323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 02/32] fix: PackedNavBits: grow the bit array when a field is
 appended past its end

After clearBits(), trimsize(), addPackedNavBits() or copying, the array is
shorter than its default capacity and appending wrote out of bounds.
---
 core/lib/GNSSEph/PackedNavBits.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 0394bc6..2a06e11 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -616,6 +616,12 @@ namespace gpstk
    void PackedNavBits::addUint64_t( const uint64_t value, const int numBits )
    {
       size_t ndx = bits_used;
+         // The array may be shorter than its default capacity after
+         // clearBits(), trimsize(), addPackedNavBits() or a copy.
+      if (bits.size() < ndx + numBits)
+      {
+         bits.resize(ndx + numBits);
+      }
       uint64_t mask = 0x0000000000000001L;
       mask <<= (numBits-1);
 
-- 
2.43.0


From a8df267605b3ca08c17321368b34e46391d148a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 03/32] fix: EngNav::fixParity: do not keep stale parity bits
 in the returned word

---
 core/lib/GNSSEph/EngNav.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index cabdac8..bc0bc41 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -697,6 +697,11 @@ namespace gpstk
          if ((D29 + BinUtils::countBits(bmask[5] & d)) % 2)
             d |= 0x00000080;
       }
+      else
+      {
+            // make sure stale parity bits do not end up in the result.
+         d &= 0xffffffc0;
+      }
 
       D = computeParity(d, psfword, knownUpright);
 
-- 
2.43.0


From 99fb5609dc49692accc3d3123304882a36d02514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 04/32] fix: EngNav::fixParity: solve the non-information bits
 on the source bits

---
 core/lib/GNSSEph/EngNav.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index bc0bc41..27526be 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -690,11 +690,13 @@ namespace gpstk
 
       if (nib)
       {
+            // parity is computed on the source bits, see computeParity.
+         uint32_t inv = (D30 && !knownUpright) ? 0xffffffff : 0;
             // make sure the non-information bits are zero to start with.
          d &= 0xffffff00;
-         if ((D30 + BinUtils::countBits(bmask[4] & d)) % 2)
+         if ((D30 + BinUtils::countBits(bmask[4] & (d ^ inv))) % 2)
             d |= 0x00000040;
-         if ((D29 + BinUtils::countBits(bmask[5] & d)) % 2)
+         if ((D29 + BinUtils::countBits(bmask[5] & (d ^ inv))) % 2)
             d |= 0x00000080;
       }
       else
-- 
2.43.0


From 56d03daaae320c6f2628685b811685a8c00ec459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 05/32] fix: EngNav::getSubframePattern: undefined page
 identifiers have no pattern

---
 core/lib/GNSSEph/EngNav.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 27526be..5cd9a4b 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -507,6 +507,8 @@ namespace gpstk
       svid  = static_cast<short>( itemp );
       if ( svid <= 32 )
          iret = 4;            /* PRN orbit data */
+      else if ( svid < 51 )
+         iret = 0;            /* undefined SV ID */
       else
          iret = patId[svid-51];  /* look up pat id for almanac overhead
                                     information */
-- 
2.43.0


From 9ddf8a2378a48ad32eb5a9bc347324d8f299fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 06/32] fix: convertSODtoTime handles negative seconds of day

The negative quotient was converted to an unsigned type, so that negative
times of day were not brought into one day.
---
 core/lib/TimeHandling/TimeConverters.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/TimeConverters.cpp b/core/lib/TimeHandling/TimeConverters.cpp
index 2d3f8c9..28310a5 100644
--- a/core/lib/TimeHandling/TimeConverters.cpp
+++ b/core/lib/TimeHandling/TimeConverters.cpp
@@ -154,8 +154,9 @@ namespace gpstk
          // Get us to within one day.
       if (sod < 0)
       {
-         sod += (1 +
-                 static_cast<unsigned long>(sod / SEC_PER_DAY)) * SEC_PER_DAY ;
+            // the quotient is negative, so it must not be converted to
+            // an unsigned type
+         sod -= floor(sod / SEC_PER_DAY) * SEC_PER_DAY ;
       }
       else if (sod >= SEC_PER_DAY)
       {
-- 
2.43.0


From de287e4f44a5d59c9bb8784dc8dab22915c33c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 07/32] fix: UnixTime before 1970 converts to CommonTime

The day and second of day of a negative second count were truncated toward
zero, leaving a negative second of day that CommonTime refuses.
---
 core/lib/TimeHandling/UnixTime.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/UnixTime.cpp b/core/lib/TimeHandling/UnixTime.cpp
index 546a589..04dcf4a 100644
--- a/core/lib/TimeHandling/UnixTime.cpp
+++ b/core/lib/TimeHandling/UnixTime.cpp
@@ -56,8 +56,16 @@ namespace gpstk
       try
       {
          CommonTime ct;
-         return ct.set( ( MJD_JDAY + UNIX_MJD + tv.tv_sec / SEC_PER_DAY ),
-                        ( tv.tv_sec % SEC_PER_DAY ),
+         long day = tv.tv_sec / SEC_PER_DAY;
+         long sod = tv.tv_sec % SEC_PER_DAY;
+            // times before 1970 have a negative remainder
+         if (sod < 0)
+         {
+            sod += SEC_PER_DAY;
+            --day;
+         }
+         return ct.set( ( MJD_JDAY + UNIX_MJD + day ),
+                        sod,
                         ( static_cast<double>( tv.tv_usec ) * 1e-6 ),
                         timeSystem );
       }
-- 
2.43.0


From 8e89aa2f155e26956ed78848ef6536c5c94e94af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 08/32] fix: PackedNavBits: compare the bits in use, not the
 reserved capacity

---
 core/lib/GNSSEph/PackedNavBits.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 2a06e11..b01e8e8 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -656,13 +656,14 @@ namespace gpstk
          // happen.  In the context of NavFilter, data SHOULD be
          // from the same system, therefore, the same length should 
          // always be true.
-      if (bits.size()!=right.bits.size())
+         // NOTE: bits may hold unused space beyond bits_used.
+      if (bits_used!=right.bits_used)
       {
-         if (bits.size()<right.bits.size()) return true;
+         if (bits_used<right.bits_used) return true;
          return false;
       }
 
-      for (int i=0;i<bits.size();i++)
+      for (int i=0;i<bits_used;i++)
       {
          if (bits[i]==false && right.bits[i]==true)
          //if (bits[i]<right.bits[i])
@@ -958,15 +959,16 @@ namespace gpstk
    {
          // If the two objects don't have the same number of bits,
          // don't even try to compare them. 
-      if (bits.size()!=right.bits.size()) return false; 
+         // NOTE: bits may hold unused space beyond bits_used.
+      if (bits_used!=right.bits_used) return false; 
 
       short startBit = startBitA;
       short endBit = endBitA; 
          // Check for nonsense arguments
       if (endBit==-1 ||
-          endBit>=int(bits.size())) endBit = bits.size()-1;
+          endBit>=bits_used) endBit = bits_used-1;
+      if (startBit>=bits_used) startBit = bits_used-1;
       if (startBit<0) startBit=0;
-      if (startBit>=int(bits.size())) startBit = bits.size()-1;
 
       for (int i=startBit;i<=endBit;i++)
       {
-- 
2.43.0


From b8b4349cdb5636e3410d8f7b157c33e2188fe810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 09/32] fix: TimeRange::operator< orders exclusive before
 inclusive starts

---
 core/lib/TimeHandling/TimeRange.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/TimeRange.cpp b/core/lib/TimeHandling/TimeRange.cpp
index 89f3e02..1a6cf06 100644
--- a/core/lib/TimeHandling/TimeRange.cpp
+++ b/core/lib/TimeHandling/TimeRange.cpp
@@ -195,7 +195,8 @@ namespace gpstk
           return true; 
         }
      }
-     return false;
+     // Left is exclusive and right inclusive.
+     return (start<right.start);
    }
 
       // True if start/end of this object are both prior
-- 
2.43.0


From 43f86c2192d7da15ecfdd7993dac791e60ff598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 10/32] fix: Z-count arithmetic: no truncation of weeks, blocks
 before the offset

---
 core/lib/TimeHandling/GPSWeekZcount.cpp | 36 ++++++++++++++++++-------
 core/lib/TimeHandling/GPSZcount.cpp     | 29 ++++++++++++++++----
 2 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/core/lib/TimeHandling/GPSWeekZcount.cpp b/core/lib/TimeHandling/GPSWeekZcount.cpp
index a3f6ad1..a04c1ea 100644
--- a/core/lib/TimeHandling/GPSWeekZcount.cpp
+++ b/core/lib/TimeHandling/GPSWeekZcount.cpp
@@ -227,12 +227,12 @@ namespace gpstk
 
    GPSWeekZcount& GPSWeekZcount::addWeeks(short inWeeks)
    {
-      week += inWeeks;
-      if (week < 0)
+      if (week + inWeeks < 0)
       {
          gpstk::InvalidRequest exc("addWeeks results in negative week");
          GPSTK_THROW(exc);
       }
+      week += inWeeks;
       return *this;
    }
 
@@ -242,28 +242,34 @@ namespace gpstk
       if (inZcounts == 0)
          return *this;
 
-      short originalWeek(week);
+      int originalWeek(week);
       long originalZcount(zcount);
 
       try
       {
             // First, do week modifications.
-         addWeeks(inZcounts / ZCOUNT_PER_WEEK);
+         long newWeek = week + inZcounts / ZCOUNT_PER_WEEK;
 
             // Now, take care of Z-counts.
          long tmp = zcount + (inZcounts % ZCOUNT_PER_WEEK);
 
          if (tmp < 0)
          {
-            addWeeks(-1);
+            newWeek--;
             tmp += ZCOUNT_PER_WEEK;
          }
          else if (tmp >= ZCOUNT_PER_WEEK)
          {
-            addWeeks(1);
+            newWeek++;
             tmp -= ZCOUNT_PER_WEEK;
          }
 
+         if (newWeek < 0 || newWeek != static_cast<int>(newWeek))
+         {
+            gpstk::InvalidRequest exc("addZcounts results in invalid week");
+            GPSTK_THROW(exc);
+         }
+         week = newWeek;
          zcount = tmp;
          return *this;
       }
@@ -347,6 +353,15 @@ namespace gpstk
    }
 
 
+      // Number of the block that contains the given Z-count.  Z-counts before
+      // the offset are in blocks with negative numbers.
+   static long blockNumber(long zcount, long block, long offset)
+   {
+      long z = zcount - offset;
+      return (z < 0) ? -((block - 1 - z) / block) : (z / block);
+   }
+
+
    bool GPSWeekZcount::inSameTimeBlock(const GPSWeekZcount& other,
                                        unsigned long inZcountBlock,
                                        unsigned long inZcountOffset)
@@ -357,8 +372,8 @@ namespace gpstk
             // Make sure that we're in the same week, and then checkto
             // see if we're in the same time block.
          if ((week == other.week) &&
-             (((zcount - inZcountOffset) / inZcountBlock) ==
-              ((other.zcount - inZcountOffset) / inZcountBlock)))
+             (blockNumber(zcount, inZcountBlock, inZcountOffset) ==
+              blockNumber(other.zcount, inZcountBlock, inZcountOffset)))
          {
             return true;
          }
@@ -366,8 +381,9 @@ namespace gpstk
       else
       {
             // Comare using the total number of Z-counts
-         if (long((getTotalZcounts() - inZcountOffset) / inZcountBlock) ==
-             long((other.getTotalZcounts() - inZcountOffset) / inZcountBlock))
+         if (blockNumber(getTotalZcounts(), inZcountBlock, inZcountOffset) ==
+             blockNumber(other.getTotalZcounts(), inZcountBlock,
+                         inZcountOffset))
          {
             return true;
          }
diff --git a/core/lib/TimeHandling/GPSZcount.cpp b/core/lib/TimeHandling/GPSZcount.cpp
index 63d62fb..6d89b46 100644
--- a/core/lib/TimeHandling/GPSZcount.cpp
+++ b/core/lib/TimeHandling/GPSZcount.cpp
@@ -163,7 +163,15 @@ namespace gpstk
       try
       {
             // First, do week modifications.
-         addWeeks(inZcounts / ZCOUNT_WEEK);
+            // The number of weeks may not fit a short.
+         long weeks = inZcounts / ZCOUNT_WEEK;
+         if (weeks != static_cast<short>(weeks))
+         {
+            gpstk::InvalidRequest ir("Addition of " + asString(weeks) +
+                                     " weeks renders this object invalid.");
+            GPSTK_THROW(ir);
+         }
+         addWeeks(weeks);
 
             // Now, take care of Z-counts.
          long tmp = zcount + (inZcounts % ZCOUNT_WEEK);
@@ -321,6 +329,14 @@ namespace gpstk
       return asString<short>(week) + "w" + asString<long>(zcount) + "z";
    }
 
+      // Number of the block that contains the given Z-count.  Z-counts before
+      // the offset are in blocks with negative numbers.
+   static long blockNumber(long zcount, long block, long offset)
+   {
+      long z = zcount - offset;
+      return (z < 0) ? -((block - 1 - z) / block) : (z / block);
+   }
+
    bool GPSZcount::inSameTimeBlock(const GPSZcount& other,
                                    unsigned long inZcountBlock,
                                    unsigned long inZcountOffset)
@@ -330,8 +346,9 @@ namespace gpstk
             // Make sure that we're in the same week, and then check to see if
             // we're in the same time block
          if ( (getWeek() == other.getWeek()) &&
-              (((getZcount() - inZcountOffset) / inZcountBlock) ==
-               ((other.getZcount() - inZcountOffset) / inZcountBlock)) )
+              (blockNumber(getZcount(), inZcountBlock, inZcountOffset) ==
+               blockNumber(other.getZcount(), inZcountBlock,
+                           inZcountOffset)) )
          {
             return true;
          }
@@ -339,8 +356,10 @@ namespace gpstk
       else // inZcountBlock >= ZCOUNT_WEEK
       {
             // Compare using the total number of Z-counts.
-         if (long((getTotalZcounts() - inZcountOffset) / inZcountBlock) ==
-             long((other.getTotalZcounts() - inZcountOffset) / inZcountBlock))
+         if (blockNumber(static_cast<long>(getTotalZcounts()),
+                         inZcountBlock, inZcountOffset) ==
+             blockNumber(static_cast<long>(other.getTotalZcounts()),
+                         inZcountBlock, inZcountOffset))
          {
             return true;
          }
-- 
2.43.0


From 03dc90cd4b1e7c8c160df26a8d32bb1aa135d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 11/32] fix: NavMsgDataWords: last bit of each word

---
 core/lib/NavFilter/NavMsgDataWords.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/lib/NavFilter/NavMsgDataWords.hpp b/core/lib/NavFilter/NavMsgDataWords.hpp
index 1ffe367..dc5f1f3 100644
--- a/core/lib/NavFilter/NavMsgDataWords.hpp
+++ b/core/lib/NavFilter/NavMsgDataWords.hpp
@@ -86,9 +86,10 @@ namespace gpstk
       if (num == 0)
          return 0;
          // mask and shift the desired bits
-      uint32_t fbmodN = (start % WordSize);
-      return ((sf[start/WordSize] & (((uint32_t)-1) >> (fbmodN+1))) >>
-              (31-fbmodN-num));
+      uint32_t fb = start - 1;
+      uint32_t fbmodN = (fb % WordSize);
+      return ((sf[fb/WordSize] & (((uint32_t)-1) >> (fbmodN+32-WordSize))) >>
+              (WordSize-fbmodN-num));
    }
 
 
-- 
2.43.0


From ace59848949f014739e12d917248e324918460e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 12/32] fix: CNav2SanityFilter: message of the last 18 seconds
 of a week

---
 core/lib/NavFilter/CNav2SanityFilter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/CNav2SanityFilter.cpp b/core/lib/NavFilter/CNav2SanityFilter.cpp
index 8f1df37..5ae5efd 100755
--- a/core/lib/NavFilter/CNav2SanityFilter.cpp
+++ b/core/lib/NavFilter/CNav2SanityFilter.cpp
@@ -67,11 +67,11 @@ namespace gpstk
          bitOffset += 8; 
          uint32_t pageNum = (uint32_t) fd->pnb->asUnsignedLong(bitOffset,6,1);
 
-         unsigned msgSOW = 7200 * ITOW + TOI * 18; 
+         int msgSOW = 7200 * ITOW + TOI * 18; 
          msgSOW -= 18;
          if (msgSOW<0)
             msgSOW += 604800; 
-         unsigned xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
+         int xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
          unsigned xmitWeek = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).week;
  
          bool valid =
-- 
2.43.0


From 72cb11d5f005dde8b3c7fbf530d4cd55a346eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 13/32] fix: NavFilterMgr::finalize: report filters with
 rejected data and keep it

---
 core/lib/NavFilter/NavFilterMgr.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/NavFilterMgr.cpp b/core/lib/NavFilter/NavFilterMgr.cpp
index 200ddde..7fe357a 100644
--- a/core/lib/NavFilter/NavFilterMgr.cpp
+++ b/core/lib/NavFilter/NavFilterMgr.cpp
@@ -82,13 +82,16 @@ namespace gpstk
          // current and next filter
       FilterList::iterator fliCur, fliNxt;
       rejected.clear();
+      for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
+         (*fliCur)->rejected.clear();
          // touch ALL filters
       for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
       {
             // finalize the data in the current filter
-         (*fliCur)->rejected.clear();
          rv2.clear();
          (*fliCur)->finalize(rv2);
+         if (!(*fliCur)->rejected.empty())
+            rejected.insert(*fliCur);
          
             // If the filter returned some data, we need to push it
             // into the next filter using validate.
@@ -100,9 +103,10 @@ namespace gpstk
             rv1 = rv2;
             while ((fliNxt != filters.end()) && !rv1.empty())
             {
-               (*fliNxt)->rejected.clear();
                rv2.clear();
                (*fliNxt)->validate(rv1, rv2);
+               if (!(*fliNxt)->rejected.empty())
+                  rejected.insert(*fliNxt);
                rv1 = rv2;
                fliNxt++;
             }
-- 
2.43.0


From eeade04ae053f1e73dde80340cdaae036b3f1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:52 +0000
Subject: [PATCH 14/32] fix: nominal CNAV accuracy table lacks the entry for
 URA index 15 (read past its end)

---
 core/lib/GNSSEph/GPS_URA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/GPS_URA.hpp b/core/lib/GNSSEph/GPS_URA.hpp
index b234ac3..1e1de02 100644
--- a/core/lib/GNSSEph/GPS_URA.hpp
+++ b/core/lib/GNSSEph/GPS_URA.hpp
@@ -91,7 +91,7 @@ namespace gpstk
                                                     0.044194, 0.0625, 0.088388, 0.125, 0.176777,
                                                     0.25, 0.353553, 0.5, 0.707107, 1, 1.414214, 2, 
                                                     2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512,
-                                                    1024, 2048, 4096};
+                                                    1024, 2048, 4096, 9.999999999999e99};
       /// constant for max array index in gps nom index table
    const int SV_CNAV_NOMINAL_MAX_INDEX = 30;
  
-- 
2.43.0


From 880b8cd49f59742f7f2a973064fd10b2c116dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 15/32] fix: GPSEphemerisStore::rationalize hung on satellites
 without data and kept only the last satellite's time span

---
 core/lib/GNSSEph/GPSEphemerisStore.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/GPSEphemerisStore.cpp b/core/lib/GNSSEph/GPSEphemerisStore.cpp
index de44b09..34a70bc 100644
--- a/core/lib/GNSSEph/GPSEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GPSEphemerisStore.cpp
@@ -61,10 +61,18 @@ namespace gpstk
    // ordering has been determined.
    void GPSEphemerisStore::rationalize(void)
    {
+         // the initial/final times are those of all satellites
+      initialTime = CommonTime::END_OF_TIME;
+      initialTime.setTimeSystem(timeSystem);
+      finalTime = CommonTime::BEGINNING_OF_TIME;
+      finalTime.setTimeSystem(timeSystem);
+
       // loop over satellites
       SatTableMap::iterator it;
       for (it = satTables.begin(); it != satTables.end(); it++) {
          TimeOrbitEphTable& table = it->second;
+         if (table.empty())      // nothing left for this satellite after edit()
+            continue;
          TimeOrbitEphTable::iterator ei;
          TimeOrbitEphTable::iterator eiPrev;
          bool begin = true;
@@ -226,9 +234,11 @@ namespace gpstk
            // Well, not quite done.  We need to update the initial/final
            // times of the map.
         const TimeOrbitEphTable::iterator Cei = table.begin( );
-        initialTime = Cei->second->beginValid;
+        if (Cei->second->beginValid < initialTime)
+           initialTime = Cei->second->beginValid;
         const TimeOrbitEphTable::reverse_iterator rCei = table.rbegin();
-        finalTime   = rCei->second->endValid;
+        if (rCei->second->endValid > finalTime)
+           finalTime = rCei->second->endValid;
 
       } // end outer for-loop
    }
-- 
2.43.0


From 3c9c9c588f4ba7b4b581090df6ec8199768345a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:16 +0000
Subject: [PATCH 16/32] fix: big-endian BINEX MGFZI value 8 was encoded as 0

---
 core/lib/FileHandling/Binex/BinexData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index a211aa1..5729e26 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -649,7 +649,7 @@ namespace gpstk
             {
                uc = (signBit << 3) | (0xf0 & ( (unsigned char)absValue << 4) );
             }
-            if (uc == 0x08)
+            if (uc == (littleEndian ? 0x08 : 0x80))
             {
                   // A valid value has been rounded to "-0"; convert to "+0".
                uc = 0x00;
-- 
2.43.0


From e4cbdf43c7c9f33fff20e19ad36077b1182d84c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:16 +0000
Subject: [PATCH 17/32] fix: BINEX reversed numbers and records were written
 wrong and could not be read

---
 core/lib/FileHandling/Binex/BinexData.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 5729e26..d766cba 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1362,9 +1362,9 @@ namespace gpstk
                GPSTK_THROW(err);
             }
             std::string revRecBuf( (char*)&revRecVec[0], revRecSize);
-            reverseBuffer(revRecBuf, revRecSize);
+            reverseBuffer(revRecBuf);
 
-            if (revRecBuf[0] != expectedSyncByte)
+            if ((SyncByte)revRecBuf[0] != expectedSyncByte)
             {
                FFStreamError err("BINEX head/tail synchronization byte mismatch");
                GPSTK_THROW(err);
@@ -1687,8 +1687,8 @@ namespace gpstk
          FFStreamError err("Invalid offset reversing BINEX data buffer");
          GPSTK_THROW(err);
       }
-      size_t back = (n == std::string::npos) ? buffer.size() - 1: offset + n;
-      if (back >= buffer.size() )
+      size_t back = (n == std::string::npos) ? buffer.size() : offset + n;
+      if (back > buffer.size() )
       {
          FFStreamError err("Invalid size reversing BINEX data buffer");
          GPSTK_THROW(err);
-- 
2.43.0


From 2a2581fcb1a96f9a07eba5a37fc0414716d2575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:16 +0000
Subject: [PATCH 18/32] fix: BINEX MGFZI::read decoded past the bytes it had
 read and so always failed

---
 core/lib/FileHandling/Binex/BinexData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index d766cba..e215e00 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -817,7 +817,7 @@ namespace gpstk
       strm.read((char*)&buffer[0], 1);
 
          // Isolate sign and byte-length flags
-      flags = reverseBytes
+      flags = (reverseBytes || littleEndian)
             ? buffer[0] & 0x0f
             : (buffer[0] >> 4) & 0x0f;
 
@@ -855,7 +855,7 @@ namespace gpstk
 
          // Decode the entire buffer
       std::string  tmp((const char*)&buffer[0], size);
-      decode(tmp, size, littleEndian);
+      decode(tmp, 0, littleEndian);
 
       return size;
    }
-- 
2.43.0


From 551e45f96d96b9ace150d989c19dcf184bc74b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:16 +0000
Subject: [PATCH 19/32] fix: reading a reverse-readable BINEX record left its
 tail in the stream

---
 core/lib/FileHandling/Binex/BinexData.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index e215e00..d77f98c 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1343,6 +1343,18 @@ namespace gpstk
                FFStreamError err("Bad BINEX CRC");
                GPSTK_THROW(err);
             }
+
+               // Skip the items that make the record readable in reverse
+            if (syncByte & eReverseReadable)
+            {
+               UBNXI recLen(1 + crcBufLen + msgLen + crcLen);
+               strm.ignore(recLen.getSize() + 1);
+               if (!strm.good() )
+               {
+                  FFStreamError err("Incomplete BINEX record tail");
+                  GPSTK_THROW(err);
+               }
+            }
          }
          else if (isTailSyncByteValid(syncBuf, expectedSyncByte) )
          {
-- 
2.43.0


From 21f8b5aa4c9c0264f9dab82c69676f558980bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:13 +0000
Subject: [PATCH 20/32] fix: OrbElemStore::rationalize hung on satellites
 without data and kept only the last satellite's time span; refused data left
 an empty table

---
 core/lib/GNSSEph/OrbElemStore.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index 86bd7c6..67a9005 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -237,8 +237,6 @@ namespace gpstk
         addSatSys(sid.system); 
      }
 
-        // Find reference to map for this SV 
-     OrbElemMap& oem = ube[sid];
      string ts = "%02m/%02d/%02y %02H:%02M:%02S";
 
      if (dbg)
@@ -258,6 +256,9 @@ namespace gpstk
         GPSTK_THROW(ip);
      }
 
+        // Find reference to map for this SV 
+     OrbElemMap& oem = ube[sid];
+
        // if map is empty, load object and return
      if (dbg) cout << "oes::addOE.  Checking oem.size()" << endl;
      if (oem.size()==0)
@@ -806,10 +807,18 @@ namespace gpstk
           GPSTK_THROW(e);
       }
 
+         // the initial/final times are those of all satellites
+      initialTime = CommonTime::END_OF_TIME;
+      initialTime.setTimeSystem(timeSysForStore);
+      finalTime = CommonTime::BEGINNING_OF_TIME;
+      finalTime.setTimeSystem(timeSysForStore);
+
       UBEMap::iterator it;
       for (it = ube.begin(); it != ube.end(); it++)
       {
          OrbElemMap& em = it->second;
+         if (em.empty())         // nothing left for this satellite after edit()
+            continue;
          OrbElemMap::iterator ei;
   	     OrbElemMap::iterator eiPrev;
          bool begin = true;
@@ -1023,9 +1032,11 @@ namespace gpstk
            // Well, not quite done.  We need to update the initial/final 
            // times of the map.
         const OrbElemMap::iterator Cei = em.begin( );
-        initialTime = Cei->second->beginValid;
+        if (Cei->second->beginValid < initialTime)
+           initialTime = Cei->second->beginValid;
         const OrbElemMap::reverse_iterator rCei = em.rbegin();
-        finalTime   = rCei->second->endValid;
+        if (rCei->second->endValid > finalTime)
+           finalTime = rCei->second->endValid;
 
       } // end outer for-loop
       //cout << "Exiting OrbElem.rationalize()" << endl; 
-- 
2.43.0


From 8d0dceb8eeb19f20fdc3d47f71852fac6afb18f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:13 +0000
Subject: [PATCH 21/32] fix: TabularSatStore::edit kept a record before the
 interval; empty tables were dereferenced; single intervals skipped the gap
 check

---
 core/lib/GNSSEph/TabularSatStore.hpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index a5992b5..fdde10d 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -289,17 +289,15 @@ namespace gpstk
                // move it1 down by one
             if(--it1 == dtable.begin())
             {
-                  // if an interval of only 2
-               if(nhalf==1)
+                  // need more than an interval of only 2
+               if(nhalf!=1)
                {
-                  ++(it2 = it1);
-                  return exactMatch;
+                  InvalidRequest
+                     e("Inadequate data before(2) requested time for"
+                       " satellite " + gpstk::StringUtils::asString(sat) +
+                       printTime(ttag,fmt));
+                  GPSTK_THROW(e);
                }
-               InvalidRequest e("Inadequate data before(2) requested time for"
-                                " satellite " +
-                                gpstk::StringUtils::asString(sat) +
-                                printTime(ttag,fmt));
-               GPSTK_THROW(e);
             }
 
                //LOG(INFO) << "OK, have interval " << printTime(it1->first,"%F/%g") <<
@@ -670,8 +668,7 @@ namespace gpstk
                // delete everything before tmin
                // jt points to the earliest time >= tmin
             jt = dtab.lower_bound(tmin);
-            if(jt != dtab.begin() && --jt != dtab.begin())
-               dtab.erase(dtab.begin(),jt);
+            dtab.erase(dtab.begin(),jt);
          }
       }
 
@@ -770,7 +767,7 @@ namespace gpstk
             return initialTime;
 
          typename SatTable::const_iterator it(tables.find(sat));
-         if(it == tables.end())
+         if(it == tables.end() || it->second.empty())
             return initialTime;
 
          return (it->second.begin())->first;
@@ -785,7 +782,7 @@ namespace gpstk
             return finalTime;
 
          typename SatTable::const_iterator it(tables.find(sat));
-         if(it == tables.end())
+         if(it == tables.end() || it->second.empty())
             return finalTime;
 
          typename DataTable::const_iterator jt(it->second.end());
@@ -894,7 +891,7 @@ namespace gpstk
             // save the most frequent N step sizes
          static const int N=3;
          int i,ndt[N]={0,0,0};
-         double dt[N],del;
+         double dt[N]={0.0,0.0,0.0},del;
 
             // loop over the table
          typename DataTable::const_iterator jt(it->second.begin());
-- 
2.43.0


From c7c859a5a0c445e1aa9b54a5420beddfd6f07494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:13 +0000
Subject: [PATCH 22/32] fix: PositionSatStore returned a later record than the
 one at the requested epoch

---
 core/lib/GNSSEph/PositionSatStore.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/lib/GNSSEph/PositionSatStore.cpp b/core/lib/GNSSEph/PositionSatStore.cpp
index 484a4c1..778f7c6 100644
--- a/core/lib/GNSSEph/PositionSatStore.cpp
+++ b/core/lib/GNSSEph/PositionSatStore.cpp
@@ -204,7 +204,6 @@ namespace gpstk
 
          if(getTableInterval(sat, ttag, Nhalf, it1, it2, true)) {
             // exact match
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Pos;
          }
@@ -249,7 +248,6 @@ namespace gpstk
 
          bool isExact(getTableInterval(sat, ttag, Nhalf, it1, it2, haveVelocity));
          if(isExact && haveVelocity) {
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Vel;
          }
@@ -309,7 +307,6 @@ namespace gpstk
          bool isExact(getTableInterval(sat,ttag,Nhalf,it1,it2,haveAcceleration));
          if(isExact && haveAcceleration) {
             // exact match, and have acceleration data
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Acc;
          }
-- 
2.43.0


From eddb865b48980a6ea4a24f70cf7d3de0fb435516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:13 +0000
Subject: [PATCH 23/32] fix: ClockSatStore::getClockDrift interpolated biases
 as drifts; getValue read behind the window at the first epoch of a linear
 clock

---
 core/lib/GNSSEph/ClockSatStore.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index 0231f78..c79e622 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -106,8 +106,6 @@ namespace gpstk
             ++n;
          };
 
-         if(isExact && Nmatch == (int)(Nhalf-1)) { Nlow++; Nhi++; }
-
          // interpolate
          rec.accel = rec.sig_accel = 0.0;              // defaults
          double dt(ttag-ttag0), err, slope;
@@ -274,7 +272,7 @@ namespace gpstk
             if(isExact && ABS(kt->first-ttag) < 1.e-8) Nhi=n;
             times.push_back(kt->first - ttag0);    // sec
             if(haveClockDrift)
-               drifts.push_back(kt->second.bias);  // sec/sec
+               drifts.push_back(kt->second.drift); // sec/sec
             else
                biases.push_back(kt->second.bias);  // sec
             if(kt == it2) break;
-- 
2.43.0


From 352e14110340e2c153f8739b4d4591081253af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:23 +0000
Subject: [PATCH 24/32] fix: StringUtils::word and words returned the whole
 text for a word behind the last one, and the delimiters of a text without
 words

---
 core/lib/Utilities/StringUtils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 19266eb..f477aca 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2125,11 +2125,11 @@ namespace gpstk
       {
          try
          {
-               // return s if there are no delimiters
+               // there is no word if there are only delimiters
             std::string::size_type pos = s.find_first_not_of(delimiter);
             if (pos == std::string::npos)
             {
-               return s;
+               return "";
             }
                // find the end delimiter (if any) and return the string
             std::string::size_type endPos = s.find(delimiter, pos);
@@ -2195,7 +2195,7 @@ namespace gpstk
                return "";
                
             std::string::size_type wordNum = 0;
-            std::string::size_type pos = 0, startPos = 0;
+            std::string::size_type pos = 0, startPos = std::string::npos;
 
             std::string toReturn;
 
@@ -2217,7 +2217,7 @@ namespace gpstk
             }
 
             if (pos == std::string::npos)
-               return ((wordNum >= firstWord) ? s.substr(startPos) : "");
+               return ((startPos != std::string::npos) ? s.substr(startPos) : "");
                
             return s.substr(startPos, pos-startPos);
          }
-- 
2.43.0


From 1691d38cd045d295932a18145ef2cc3d9c2d65d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:23 +0000
Subject: [PATCH 25/32] fix: StringUtils::removeWords removed a word when asked
 to remove none

---
 core/lib/Utilities/StringUtils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index f477aca..db1bac8 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2415,6 +2415,9 @@ namespace gpstk
       {
          try
          {
+            if (wordsToReplace == 0)
+               return s;
+
             std::string::size_type rmStart = std::string::npos;
             std::string::size_type rmCount = std::string::npos;
             
-- 
2.43.0


From 29b32b59988a5d0a7c58558604b1bd0e0d72d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:23 +0000
Subject: [PATCH 26/32] fix: StringUtils::translate read past the end of an
 empty output table

---
 core/lib/Utilities/StringUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index db1bac8..d615f92 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1491,7 +1491,7 @@ namespace gpstk
          {
                // figure out which char we found;
             inpos = inputChars.find(rv[aspos]);
-            if (outputChars.length()-1 < inpos)
+            if (outputChars.length() <= inpos)
                toc = pad;
             else
                toc = outputChars[inpos];
-- 
2.43.0


From 239de8d46a81a5fc37b856736e3ffaeb07248523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:23 +0000
Subject: [PATCH 27/32] fix: StringUtils::x2d left hexadecimal digits behind
 the number, and took the number behind a zero

---
 core/lib/Utilities/StringUtils.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index d615f92..abbf6d4 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1783,22 +1783,19 @@ namespace gpstk
       {
          try
          {
-               // remove the "0x" part, leading zeros and spaces from the
+               // remove the "0x" part and leading spaces from the
                // string
-               // ex. ' 0x003' -> '3'
+               // ex. ' 0x003' -> '003'
             stripLeading(s);
             stripLeading(s, "0x", 1);
-            stripLeading(s, "0");
 
-               // make the stringstream, get the integer, and
-               // remove it from the string
-            std::istringstream strstr(s);
-            int i = 0;
-            strstr >> std::hex >> i;
-            stripLeading(s, asString<int>(asInt(s)), 1);
+               // get the integer, and remove its digits from the string
+            char *end = 0;
+            long i = strtol(s.c_str(), &end, 16);
+            s.erase(0, end - s.c_str());
 
                // append the decimal to the existing string
-            s.insert(0,asString<int>(i));
+            s.insert(0,asString<long>(i));
             return s;
          }
          catch(StringException &e)
-- 
2.43.0


From c47af2994f46773c3dd0fdcdb0e340a3ae5d6baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:44 +0000
Subject: [PATCH 28/32] fix: joining a vector in front of a matrix (operators
 && and ||) read past the end of the matrix and shifted it

---
 core/lib/Math/Matrix/MatrixOperators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixOperators.hpp b/core/lib/Math/Matrix/MatrixOperators.hpp
index 03644a1..5eecc8c 100644
--- a/core/lib/Math/Matrix/MatrixOperators.hpp
+++ b/core/lib/Math/Matrix/MatrixOperators.hpp
@@ -136,7 +136,7 @@ namespace gpstk
 
       for (rows = 1; rows < b.rows()+1; rows++)
          for (cols = 0; cols < b.cols(); cols++)
-            toReturn(rows, cols) = b(rows, cols);
+            toReturn(rows, cols) = b(rows-1, cols);
 
       return toReturn;
    }
@@ -224,7 +224,7 @@ namespace gpstk
 
       for (cols = 1; cols < r.cols()+1; cols++)
          for (rows = 0; rows < r.rows(); rows++)
-            toReturn(rows, cols) = r(rows, cols);
+            toReturn(rows, cols) = r(rows, cols-1);
 
       return toReturn;
    }
-- 
2.43.0


From b566c98b18f2a07e282cb10a4d1e6a20e7630ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:44 +0000
Subject: [PATCH 29/32] fix: Matrix::col refused every column but the first

---
 core/lib/Math/Matrix/MatrixImplementation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Matrix/MatrixImplementation.hpp b/core/lib/Math/Matrix/MatrixImplementation.hpp
index e52b097..f5e8dda 100644
--- a/core/lib/Math/Matrix/MatrixImplementation.hpp
+++ b/core/lib/Math/Matrix/MatrixImplementation.hpp
@@ -128,7 +128,7 @@ namespace gpstk
                                          size_t rowNum) const
    {
       return ConstMatrixColSlice<T>(*this, colNum,
-                                    std::slice(colNum * r + rowNum, r - rowNum, 1));
+                                    std::slice(rowNum, r - rowNum, 1));
    }
 
    template <class T>
-- 
2.43.0


From 47b77a6b219e4ae6988ef2a6d0695530e784e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:44 +0000
Subject: [PATCH 30/32] fix: normCol summed rows instead of columns

---
 core/lib/Math/Matrix/MatrixBaseOperators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixBaseOperators.hpp b/core/lib/Math/Matrix/MatrixBaseOperators.hpp
index 19ec466..7629820 100644
--- a/core/lib/Math/Matrix/MatrixBaseOperators.hpp
+++ b/core/lib/Math/Matrix/MatrixBaseOperators.hpp
@@ -132,10 +132,10 @@ namespace gpstk
    {
       T sum(0), tempSum;
       size_t i,j;
-      for (i = 0; i < m.rows(); i++)
+      for (j = 0; j < m.cols(); j++)
       {
          tempSum = T(0);
-         for (j = 0; j < m.cols(); j++)
+         for (i = 0; i < m.rows(); i++)
             tempSum += ABS(m(i,j));
          if (tempSum > sum)
             sum = tempSum;
-- 
2.43.0


From 5331ef37a92c401e76e609387f3e20b1a9c572d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:44 +0000
Subject: [PATCH 31/32] fix: cross accepted one vector of another size and read
 past its end

---
 core/lib/Math/Vector/VectorOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Vector/VectorOperators.hpp b/core/lib/Math/Vector/VectorOperators.hpp
index a3865d0..018b82a 100644
--- a/core/lib/Math/Vector/VectorOperators.hpp
+++ b/core/lib/Math/Vector/VectorOperators.hpp
@@ -167,7 +167,7 @@ namespace gpstk
    Vector<T> cross(const ConstVectorBase<T, BaseClass>& l, 
                    const ConstVectorBase<T, BaseClass2>& r)
    { 
-      if ((l.size() != 3) && (r.size() != 3))
+      if ((l.size() != 3) || (r.size() != 3))
       {
          VectorException e("Cross product requires vectors of size 3");
          GPSTK_THROW(e);
-- 
2.43.0


From eeaa595cb579d64257677dec3a495628eadbe706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:44 +0000
Subject: [PATCH 32/32] fix: Vector::front returned the last element,
 toStdVector read its own empty result, and VectorSlice did not compile

---
 core/lib/Math/Vector/Vector.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/lib/Math/Vector/Vector.hpp b/core/lib/Math/Vector/Vector.hpp
index 468366d..da51a5e 100644
--- a/core/lib/Math/Vector/Vector.hpp
+++ b/core/lib/Math/Vector/Vector.hpp
@@ -198,9 +198,9 @@ namespace gpstk
          /// STL const iterator end
       const_iterator end() const { return v + s; }
          /// STL front
-      value_type front() { return v[s-1]; }
+      value_type front() { return v[0]; }
          /// STL const front
-      const_reference front() const { return v[s-1];}
+      const_reference front() const { return v[0];}
          /// STL empty
       bool empty() const { return size() == 0; }
          /// STL size
@@ -287,10 +287,10 @@ namespace gpstk
          // convert the gpstk vector to std vector
       std::vector<T> toStdVector()
       {
-         std::vector<T> v;
+         std::vector<T> toReturn;
          for(size_t i = 0; i < s; i++)
-            v.push_back(v[i] );
-         return v;
+            toReturn.push_back(v[i]);
+         return toReturn;
       }
 
       inline Vector& operator<<(const Vector& b)
@@ -395,7 +395,7 @@ namespace gpstk
          /// Makes a slice of the vector with the given std::slice.
       VectorSlice(Vector<T>& vv, const std::slice& ss)
             : v(&vv), s(ss)
-      { vecSliceCheck(vv.size()); }
+      { this->vecSliceCheck(vv.size()); }
 
          /// Assign the elements of this slice from another vector.
       template <class V>
@@ -461,7 +461,7 @@ namespace gpstk
          /// Uses the given slice and vector.
       ConstVectorSlice(const Vector<T>& vv, const std::slice& ss)
             : v(&vv), s(ss)
-      { vecSliceCheck(vv.size()); }
+      { this->vecSliceCheck(vv.size()); }
 
          /// Returns a const version of the i'th slice element.
       T operator[] (size_t i) const
-- 
2.43.0

