From 4307cc799d225555bd0da4f28139df2f46ebed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:27 +0000
Subject: [PATCH 001/100] fix: tdl with a single delay reads past its storage
 in getAtIndex() and operator[]

---
 src/tdl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdl.cpp b/src/tdl.cpp
index fda5ca5..9ea5128 100644
--- a/src/tdl.cpp
+++ b/src/tdl.cpp
@@ -54,7 +54,7 @@ real_t tdl::getRecent( void ) const noexcept
 real_t tdl::getAtIndex( const size_t i ) const noexcept
 {
     /*cstat -MISRAC++2008-5-0-3*/
-    return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+    return ( ( wr > rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
                                                       : *( rd - i );
     /*cstat +MISRAC++2008-5-0-3*/
 }
@@ -71,7 +71,7 @@ const real_t& tdl::operator[]( int index ) noexcept
     /*cstat -MISRAC++2008-6-6-5*/
     if ( ( index >= 0 ) && ( i < itemCount ) ) {
         /*cstat -MISRAC++2008-5-0-3*/
-        return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+        return ( ( wr > rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
                                                           : *( rd - i );
         /*cstat +MISRAC++2008-5-0-3*/
     }
-- 
2.43.0


From 83d9db5c5258d64e9ffd87e0d91f9e0c37cc603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:08 +0000
Subject: [PATCH 002/100] fix: bitfield accepts bit indexes outside the field
 and accesses memory out of bounds

---
 src/bitfield.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bitfield.cpp b/src/bitfield.cpp
index ae846b5..1629fbb 100644
--- a/src/bitfield.cpp
+++ b/src/bitfield.cpp
@@ -49,7 +49,7 @@ bool bitfield::setBit( const size_t index ) noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         set( index );
         retValue = true;
     }
@@ -61,7 +61,7 @@ bool bitfield::clearBit( const size_t index ) noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         clear( index );
         retValue = true;
     }
@@ -73,7 +73,7 @@ bool bitfield::toggleBit( const size_t index ) noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         toggle( index );
         retValue = true;
     }
@@ -85,7 +85,7 @@ bool bitfield::readBit( const size_t index ) const noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         retValue = 0U != get( index );
     }
 
@@ -97,7 +97,7 @@ bool bitfield::writeBit( const size_t index,
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         if ( value ) {
             set( index );
         }
@@ -115,7 +115,7 @@ uint32_t bitfield::readUINTn( const size_t index,
 {
     uint32_t retValue = 0U;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( index < size ) && ( xBits <= 32U ) ) {
         if ( 1U == xBits ) {
             retValue = static_cast<uint32_t>( readBit( index ) );
         }
@@ -137,7 +137,7 @@ bool bitfield::writeUINTn( const size_t index,
 {
     bool retValue = false;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( index < size ) && ( xBits <= 32U ) ) {
         uint32_t w, wMask;
 
         if ( 1U == xBits ) {
@@ -164,7 +164,7 @@ float bitfield::readFloat( const size_t index ) const noexcept
 {
     float retValue = 0.0F;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         uint32_t rval;
 
         rval = read_uint32( index );
@@ -179,7 +179,7 @@ bool bitfield::writeFloat( const size_t index,
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         uint32_t fval = 0U;
 
         (void)memcpy( &fval, &value, sizeof(float) );
-- 
2.43.0


From 1805e3b18b7d33624d8027c9d690780749bba47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:08 +0000
Subject: [PATCH 003/100] fix: bitfield zero-width readUINTn/writeUINTn shift
 by the full word width

---
 src/bitfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitfield.cpp b/src/bitfield.cpp
index 1629fbb..068bd1f 100644
--- a/src/bitfield.cpp
+++ b/src/bitfield.cpp
@@ -115,7 +115,7 @@ uint32_t bitfield::readUINTn( const size_t index,
 {
     uint32_t retValue = 0U;
 
-    if ( ( nullptr != field ) && ( index < size ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( index < size ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         if ( 1U == xBits ) {
             retValue = static_cast<uint32_t>( readBit( index ) );
         }
@@ -137,7 +137,7 @@ bool bitfield::writeUINTn( const size_t index,
 {
     bool retValue = false;
 
-    if ( ( nullptr != field ) && ( index < size ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( index < size ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         uint32_t w, wMask;
 
         if ( 1U == xBits ) {
-- 
2.43.0


From ee2d4888861f4445cf3fd4833dc5eff476e8f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 004/100] fix: fp16 multiplication reports a false overflow
 when the cross product needs more than 32 bits

---
 src/fp16.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 7a42099..8686bdd 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -147,7 +147,8 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
                      const fp16Raw_t y ) noexcept
 {
     fp16Raw_t retValue = overflow;
-    fp16Raw_t a, c, ac, ad_cb, mulH;
+    fp16Raw_t a, c, ac, mulH;
+    int64_t ad_cb;
     uint32_t b, d, bd, tmp, mulL;
 
     a = ( x >> 16 );
@@ -155,9 +156,9 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
     b = static_cast<uint32_t>( x & 0xFFFF );
     d = static_cast<uint32_t>( y & 0xFFFF );
     ac = a*c;
-    ad_cb = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( a )*d ) + ( static_cast<uint32_t>( c )*b ) );
+    ad_cb = ( static_cast<int64_t>( a )*d ) + ( static_cast<int64_t>( c )*b );
     bd = b*d;
-    mulH = ac + ( ad_cb >> 16 );
+    mulH = ac + static_cast<fp16Raw_t>( ad_cb >> 16 );
     tmp = static_cast<uint32_t>( ad_cb ) << 16;
     mulL = bd + tmp;
     if ( mulL < bd ) {
-- 
2.43.0


From 2ce68724cdb416a14e0fa7e37edfb259d973c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 005/100] fix: fp16 division by zero is not reported as
 overflow

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 8686bdd..d63b695 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -191,7 +191,7 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
 fp16Raw_t fp16::div( const fp16Raw_t x,
                      const fp16Raw_t y ) noexcept
 {
-    fp16Raw_t retValue = Min;
+    fp16Raw_t retValue = overflow;
 
     if ( 0 != y ) {
         uint32_t xRem, xDiv, bit = 0x10000U;
-- 
2.43.0


From 8a8d6d0026034a4ea83ee7ef39639880d56d4c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 006/100] fix: fp16 toInt() overflows for values that round to
 +-32768

---
 src/fp16.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index d63b695..90b1cd2 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -42,10 +42,10 @@ int fp16::toInt( const fp16 &x ) noexcept
 
     if ( flag_rounding ) {
         if ( x.value >= 0 ) {
-            retValue = ( x.value + ( one >> 1 ) ) / one;
+            retValue = static_cast<int>( ( static_cast<int64_t>( x.value ) + ( one >> 1 ) ) / one );
         }
         else {
-            retValue = ( x.value - ( one >> 1 ) ) / one;
+            retValue = static_cast<int>( ( static_cast<int64_t>( x.value ) - ( one >> 1 ) ) / one );
         }
     }
     else {
-- 
2.43.0


From fc4a9150f30405100d4dd004f11a32025c50537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 007/100] fix: fp16 conversion from float alters exactly
 representable values above 128

---
 src/fp16.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 90b1cd2..a35c658 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -79,7 +79,8 @@ fp16Raw_t fp16::fromFloat( const float x ) noexcept
     float f_value;
     /*cstat -CERT-FLP36-C -CERT-FLP34-C*/
     f_value = x * static_cast<float>( one );
-    if ( flag_rounding ) {
+    /*from 2^23 on, f_value is already an integer and adding 0.5 would alter it*/
+    if ( flag_rounding && ( f_value < 8388608.0F ) && ( f_value > -8388608.0F ) ) {
         f_value += ( f_value >= 0.0F ) ? 0.5F : -0.5F;
     }
     return static_cast<fp16Raw_t>( f_value );
-- 
2.43.0


From 68f7448840f60e743f576eb726ac7c3d14c8a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 008/100] fix: fp16 absolute() reports overflow for a
 representable result

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index a35c658..c16cfe8 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -252,7 +252,7 @@ fp16Raw_t fp16::absolute( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue;
 
-    if ( x == Min ) {
+    if ( x == overflow ) {
         retValue = overflow;
     }
     else {
-- 
2.43.0


From 7e49bc244b8dbc75c58cb39e45ff7eeb97c06d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 009/100] fix: fp16 rounding() adds one instead of rounding to
 the nearest integer

---
 src/include/fp16.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fp16.hpp b/src/include/fp16.hpp
index 04de4ee..d97925d 100644
--- a/src/include/fp16.hpp
+++ b/src/include/fp16.hpp
@@ -322,7 +322,8 @@ namespace qlibs {
             */
             static inline fp16 rounding( const fp16 &x ) noexcept
             {
-                return fp16( { x.raw() + one } );
+                const fp16Raw_t half = ( x.raw() >= 0 ) ? one_half : ( one_half - 1 );
+                return floor( fp16( { add( x.raw(), half ) } ) );
             }
 
             /**
-- 
2.43.0


From ef9eadc16df7494e9bf4050aa831ddcf5f5e0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:34 +0000
Subject: [PATCH 010/100] fix: fp16 sqrt() uses signed remainders and fails for
 zero, negative and large inputs

---
 src/fp16.cpp | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index c16cfe8..665ec7f 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -274,51 +274,49 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue = overflow;
 
-    if ( x > 0 ) {
+    if ( x >= 0 ) {
+        uint32_t rem = static_cast<uint32_t>( x );
+        uint32_t root = 0U;
         uint32_t bit;
         uint8_t n;
 
-        retValue = 0;
-        /*cstat -MISRAC++2008-5-0-3*/
-        bit = ( 0 != ( x & static_cast<fp16Raw_t>( 4293918720 ) ) ) ? 1073741824U : 262144U;
-        /*cstat +MISRAC++2008-5-0-3*/
-        while ( bit > static_cast<uint32_t>( x ) ) {
+        bit = ( 0U != ( rem & 0xFFF00000U ) ) ? 1073741824U : 262144U;
+        while ( bit > rem ) {
             bit >>= 2U;
         }
 
         for ( n = 0U ; n < 2U ; ++n ) {
             while ( 0U != bit ) {
-                if ( x >= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit ) ) {
-                    x -= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit );
-                    retValue = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( retValue ) >> 1U ) + bit );
+                if ( rem >= ( root + bit ) ) {
+                    rem -= root + bit;
+                    root = ( root >> 1U ) + bit;
                 }
                 else {
-                    retValue = ( retValue >> 1 );
+                    root >>= 1U;
                 }
                 bit >>= 2U;
             }
 
             if ( 0U == n ) {
-                if ( x > 65535 ) {
-                    x -= retValue;
-                    x = ( x << 16 ) - one_half;
-                    retValue = ( retValue << 16 ) + one_half;
+                if ( rem > 65535U ) {
+                    rem -= root;
+                    rem = ( rem << 16U ) - static_cast<uint32_t>( one_half );
+                    root = ( root << 16U ) + static_cast<uint32_t>( one_half );
                 }
                 else {
-                    x <<= 16;
-                    retValue <<= 16;
+                    rem <<= 16U;
+                    root <<= 16U;
                 }
-                /*cstat -ATH-shift-bounds -MISRAC++2008-5-8-1 -CERT-INT34-C_b*/
                 bit = 1U << 14U;
-                /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
-    }
-    if ( ( flag_rounding ) && ( x > retValue ) ) {
-        ++retValue;
+        if ( flag_rounding && ( rem > root ) ) {
+            ++root;
+        }
+        retValue = static_cast<fp16Raw_t>( root );
     }
 
-    return static_cast<fp16Raw_t>( retValue );
+    return retValue;
 }
 /*============================================================================*/
 fp16Raw_t fp16::exp( fp16Raw_t x ) noexcept
-- 
2.43.0


From 19f3b638e6f5fcb0299506f752badfe1c7d563d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:34 +0000
Subject: [PATCH 011/100] fix: fp16 log2() of 2^-15 overflows on the reciprocal

---
 src/fp16.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 665ec7f..fe726a7 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -454,20 +454,13 @@ fp16Raw_t fp16::log2( fp16Raw_t x ) noexcept
     fp16Raw_t retValue = overflow;
 
     if ( x > 0 ) {
-        if ( x < one ) {
-            if ( 1 == x ) {
-                const fp16Raw_t f16 = 1048576;
-                retValue = -f16;
-            }
-            else {
-                fp16Raw_t inv;
-                inv = div( one, x );
-                retValue = -log2i( inv );
-            }
-        }
-        else {
-            retValue = log2i( x );
+        fp16Raw_t scaling = 0;
+
+        while ( x < one ) {
+            x <<= 1;
+            scaling += one;
         }
+        retValue = log2i( x ) - scaling;
     }
     if ( saturation ) {
         if ( overflow == retValue ) {
-- 
2.43.0


From 16c63daa5d2e93e993c1d707d86efa4fa99d68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:34 +0000
Subject: [PATCH 012/100] fix: fp16 sin() overflows internally for angles
 beyond 2.57 rad

---
 src/fp16.cpp         | 13 +++++++++++--
 src/include/fp16.hpp |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index fe726a7..852efea 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -29,6 +29,7 @@ const fp16Raw_t fp16::f2 = 131072;
 const uint32_t fp16::overflow_mask = 0x80000000U;
 const uint32_t fp16::fraction_mask = 0x0000FFFFU;
 const uint32_t fp16::integer_mask = 0xFFFF0000U;
+const fp16Raw_t fp16::f_pi = 205887;
 const fp16Raw_t fp16::f_pi_2 = 102944;
 const fp16Raw_t fp16::overflow = -2147483647 - 1;
 const fp16Raw_t fp16::one = 65536;
@@ -485,8 +486,6 @@ fp16Raw_t fp16::degToRad( const fp16Raw_t x )
 /*============================================================================*/
 fp16Raw_t fp16::wrapToPi( fp16Raw_t x ) noexcept
 {
-    const fp16Raw_t f_pi = 205887;
-
     if ( ( x < -f_pi ) || ( x > f_pi ) ) {
         const fp16Raw_t f_2pi = 411775;
         while ( x > f_pi ) {
@@ -523,6 +522,16 @@ fp16Raw_t fp16::sin( fp16Raw_t x ) noexcept
     fp16Raw_t retValue, x2;
 
     x = wrapToPi( x );
+    /*stay in [-pi/2 pi/2] where no power of x overflows*/
+    if ( x > f_pi_2 ) {
+        x = f_pi - x;
+    }
+    else if ( x < -f_pi_2 ) {
+        x = -f_pi - x;
+    }
+    else {
+        /*nothing to do*/
+    }
     x2 = mul( x ,x );
     retValue = x;
     x = mul( x, x2 );
diff --git a/src/include/fp16.hpp b/src/include/fp16.hpp
index d97925d..c0e09bf 100644
--- a/src/include/fp16.hpp
+++ b/src/include/fp16.hpp
@@ -44,6 +44,7 @@ namespace qlibs {
             static const uint32_t overflow_mask;
             static const uint32_t fraction_mask;
             static const uint32_t integer_mask;
+            static const fp16Raw_t f_pi;
             static const fp16Raw_t f_pi_2;
             static const fp16Raw_t overflow;
             static const fp16Raw_t one;
-- 
2.43.0


From 6e3cc0709bb0f5ed742d74cb44d49e0f4cd183b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:34 +0000
Subject: [PATCH 013/100] fix: fp16 cos() overflows for large angles

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 852efea..7c144a1 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -550,7 +550,7 @@ fp16Raw_t fp16::sin( fp16Raw_t x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::cos( fp16Raw_t x ) noexcept
 {
-    return sin( x + f_pi_2 );
+    return sin( wrapToPi( x ) + f_pi_2 );
 }
 /*============================================================================*/
 fp16Raw_t fp16::tan( fp16Raw_t x ) noexcept
-- 
2.43.0


From 3923c892f1fa83a30111cbc3ef2efe96f85a674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:34 +0000
Subject: [PATCH 014/100] fix: fp16 atan2() overflows for large coordinates and
 at the origin

---
 src/fp16.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 7c144a1..405c550 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -566,16 +566,23 @@ fp16Raw_t fp16::tan( fp16Raw_t x ) noexcept
 fp16Raw_t fp16::atan2( fp16Raw_t y,
                        fp16Raw_t x ) noexcept
 {
-    fp16Raw_t absY, mask, angle, r, r_3;
+    fp16Raw_t absY, angle, r, r_3;
     const fp16Raw_t QFP16_0_981689 = 0x0000FB50;
     const fp16Raw_t QFP16_0_196289 = 0x00003240;
+    const fp16Raw_t f_pi_4 = 51471; /*pi/4*/
     static const fp16Raw_t f_3pi_div_4 = 154415; /*3*pi/4*/
 
-    mask = ( y >> ( sizeof(fp16Raw_t)*7U ) );
-    absY = ( y + mask ) ^ mask;
-    if ( x >= 0 ) {
+    absY = absolute( y );
+    if ( overflow == add( absolute( x ), absY ) ) {
+        x /= 2;
+        absY /= 2;
+    }
+    if ( ( 0 == x ) && ( 0 == absY ) ) {
+        r = one;
+        angle = f_pi_4;
+    }
+    else if ( x >= 0 ) {
         r = div( ( x - absY ), ( x + absY ) );
-        const fp16Raw_t f_pi_4 = 51471;
         angle = f_pi_4;
     }
     else {
-- 
2.43.0


From ee0adea3f1476dce46ca514e98c1702cd44f6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:34 +0000
Subject: [PATCH 015/100] fix: fp16 asin() divides by zero at +-1

---
 src/fp16.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 405c550..922e144 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -610,8 +610,7 @@ fp16Raw_t fp16::asin( fp16Raw_t x ) noexcept
 
     if ( ( x <= one ) && ( x >= -one ) ) {
         retValue = one - mul( x, x );
-        retValue = div( x, sqrt( retValue ) );
-        retValue = atan( retValue );
+        retValue = atan2( x, sqrt( retValue ) );
     }
 
     return retValue;
-- 
2.43.0


From 0ce9d4a79aa1a32694abf0f3454314b4590606e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:34 +0000
Subject: [PATCH 016/100] fix: fp16 sinh(0) returns one

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 922e144..b7f23f0 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -650,7 +650,7 @@ fp16Raw_t fp16::sinh( fp16Raw_t x ) noexcept
     fp16Raw_t epx, enx;
 
     if ( 0 == x ) {
-        retValue = one;
+        retValue = 0;
     }
     else if ( x >= exp_max ) {
         retValue = Max;
-- 
2.43.0


From 19dfc2f2a6f674b0e75ffd692fcb04891f069c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:34 +0000
Subject: [PATCH 017/100] fix: fp16 pow() returns the wrong sign for even
 non-positive integer powers of negative numbers

---
 src/fp16.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index b7f23f0..e10235d 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -727,7 +727,9 @@ fp16Raw_t fp16::pow( fp16Raw_t x,
 {
     fp16Raw_t retValue = overflow;
 
-    if ( ( 0U == ( static_cast<uint32_t>( y ) & fraction_mask ) ) && ( y > 0 ) ) {
+    const bool yIsInteger = ( 0U == ( static_cast<uint32_t>( y ) & fraction_mask ) );
+
+    if ( yIsInteger && ( y > 0 ) ) {
         retValue = powi( x, y );
     }
     else {
@@ -735,7 +737,7 @@ fp16Raw_t fp16::pow( fp16Raw_t x,
         tmp = mul( y, log( absolute( x ) ) );
         if ( overflow != tmp ) {
             retValue = exp( tmp );
-            if ( x < 0 ) {
+            if ( ( x < 0 ) && ( !yIsInteger || ( 0 != ( y & one ) ) ) ) {
                 retValue = -retValue;
             }
         }
-- 
2.43.0


From ae0d871b69f7dffbde78d9c61b5da6f959d485f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:33 +0000
Subject: [PATCH 018/100] fix: smootherMWM1::setup() checks its own
 uninitialized size and always fails

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 4a39430..fc2e21f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -87,7 +87,7 @@ bool smootherMWM1::setup( real_t *window,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) ) {
+    if ( ( nullptr != window ) && ( w_size > 0U ) ) {
         w = window;
         wsize = w_size;
         retValue = reset();
-- 
2.43.0


From 8961189148b53d2add163454dffda55d249a53e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:33 +0000
Subject: [PATCH 019/100] fix: smootherMOR2 returns the outlier instead of its
 replacement

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index fc2e21f..7cf053f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -210,7 +210,7 @@ real_t smootherMOR2::smooth( const real_t x )
     m = sum/wsize;
     insertSample( xx );
 
-    return x;
+    return xx;
 }
 /*============================================================================*/
 bool smootherGMWF::setup( const real_t sg,
-- 
2.43.0


From 5b1a48dbfcad79f7f59c078558b2b07589e1d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:33 +0000
Subject: [PATCH 020/100] fix: smootherALNF reads the previous weights past the
 end of the weights array

---
 src/smoother.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 7cf053f..17be5dc 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -403,11 +403,9 @@ real_t smootherALNF::smooth( const real_t x )
     }
     xe = discreteSystem::updateFIR( xx, n, x, w );
     if ( nullptr != w_1 ) {
-        real_t * const ww_1 = &w[ n ];
-
         for ( size_t i = 0U ; i < n ; ++i ) {
             const real_t w0 = w[ i ];
-            const real_t w1 = ww_1[ i ];
+            const real_t w1 = w_1[ i ];
 
             w[ i ] += ( alpha*( x - xe )*xx[ i ] ) + ( mu*( w0 - w1 ) );
             w_1[ i ] = w0;
-- 
2.43.0


From c93516a8c6181e72fa2a9233ec274315364be530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:33 +0000
Subject: [PATCH 021/100] fix: smootherALNF cannot be set up without momentum

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 17be5dc..c303f05 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m > 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From a6d09fda68cc5fcc694394720cea890b5aea5cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:33 +0000
Subject: [PATCH 022/100] fix: smootherGMWF and smootherALNF accept a null
 kernel or weights array

---
 src/smoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index c303f05..21380e8 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -222,7 +222,7 @@ bool smootherGMWF::setup( const real_t sg,
     bool retValue = false;
     const size_t ws = wk_size;
     /*cstat -CERT-FLP36-C*/
-    if ( ( nullptr != window ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != kernel ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
         real_t r, sum = 0.0_re;
         size_t i;
         real_t l, center;
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != weights ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From 08720d7ae25ab52887de0f5e3de5f6edc89b4a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:33 +0000
Subject: [PATCH 023/100] fix: smootherKLMN keeps the error covariance of the
 previous run after reset()

---
 src/include/smoother.hpp | 1 +
 src/smoother.cpp         | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/smoother.hpp b/src/include/smoother.hpp
index d683277..10d13aa 100644
--- a/src/include/smoother.hpp
+++ b/src/include/smoother.hpp
@@ -400,6 +400,7 @@ namespace qlibs {
             real_t q{ 100.0_re };  /* process(predict) noise covariance */
             real_t r{ 0.9_re };  /* measure noise covariance */
             real_t p{ 100.0_re };  /* estimated error covariance */
+            real_t p0{ 100.0_re };  /* initial estimated error covariance */
             real_t gain;
             /*! @endcond  */
         public:
diff --git a/src/smoother.cpp b/src/smoother.cpp
index 21380e8..5840d5c 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -299,7 +299,7 @@ bool smootherKLMN::setup( const real_t processNoiseCov,
     bool retValue = false;
 
     if ( ( processNoiseCov > 0.0_re ) && ( measureNoiseCov > 0.0_re ) && ( estErrorCov > 0.0_re ) ) {
-        p = estErrorCov;
+        p0 = estErrorCov;
         q = processNoiseCov;
         r = measureNoiseCov;
         A = 1.0_re;
@@ -316,6 +316,7 @@ real_t smootherKLMN::smooth( const real_t x )
 
     if ( init ) {
         xS = x;
+        p = p0;
         init = false;
     }
     /* Predict */
-- 
2.43.0


From af62afc48a68d98a555cae24c8c6976ab117e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:33 +0000
Subject: [PATCH 024/100] fix: discreteSystem normalizes the coefficient arrays
 with each other's size

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index bdfc3c1..3da15e3 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -141,7 +141,7 @@ bool discreteSystem::setup( real_t *num,
         xd = x;
         a = &den[ 1 ];
         type = LTISYS_TYPE_DISCRETE;
-        normalizeTransferFunction( num, den, n_a, n_b );
+        normalizeTransferFunction( num, den, n_b, n_a );
         (void)setInitStates();
         retValue = true;
     }
-- 
2.43.0


From 10c96ac897b8c78396f27885f1b173fb5d2ed004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:33 +0000
Subject: [PATCH 025/100] fix: discreteSystem::setup() accepts an empty
 denominator

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 3da15e3..234e5c8 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -133,7 +133,7 @@ bool discreteSystem::setup( real_t *num,
 {
     bool retValue = false;
 
-    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) ) {
+    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) && ( n_a > 0U ) ) {
         b = num;
         na = n_a - 1U;
         nb = n_b;
-- 
2.43.0


From d510a9a8fcb191ad1200c264b616693a63dc2a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:33 +0000
Subject: [PATCH 026/100] fix: discreteSystem reads the numerator out of bounds
 when the denominator is longer

---
 src/ltisys.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 234e5c8..c24f833 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -157,7 +157,11 @@ real_t discreteSystem::update( const real_t u )
     for ( size_t i = 0 ; i < na ; ++i ) {
         v -= a[ i ]*xd[ i ];
     }
-    return updateFIR( xd, n, v, b );
+    /*the numerator may have fewer elements than the delayed states*/
+    for ( size_t i = ( n - 1U ) ; i >= nb ; --i ) {
+        xd[ i ] = xd[ i - 1U ];
+    }
+    return updateFIR( xd, nb, v, b );
 }
 /*============================================================================*/
 bool continuousSystem::setup( real_t *num,
-- 
2.43.0


From dd5267cd1592372fbebca5ee140aff3b101bac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:33 +0000
Subject: [PATCH 027/100] fix: LTI systems without saturation never output zero
 or negative values

---
 src/include/ltisys.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/ltisys.hpp b/src/include/ltisys.hpp
index ee63527..d4451e7 100644
--- a/src/include/ltisys.hpp
+++ b/src/include/ltisys.hpp
@@ -189,7 +189,7 @@ namespace qlibs {
             size_t na{ 0U };
             size_t nb{ 0U };
             real_t b0{ 0.0_re };
-            real_t min{ REAL_MIN };
+            real_t min{ -REAL_MAX };
             real_t max{ REAL_MAX };
             void normalizeTransferFunction( real_t *num,
                                             real_t *den,
-- 
2.43.0


From 4f1fe8152429c64e1dba7ff3715279565825df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:33 +0000
Subject: [PATCH 028/100] fix: continuousSystem::setInitStates() loads the
 first value in every state

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index c24f833..36507bb 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -196,7 +196,7 @@ bool continuousSystem::setInitStates( const real_t *xi )
     if ( isInitialized() ) {
         if ( nullptr != xi ) {
             for ( size_t i = 0U; i < n ; ++i ) {
-                xc[ i ].init( xi[ 0 ], xi[ 0 ], xi[ 0 ] );
+                xc[ i ].init( xi[ i ], xi[ i ], xi[ i ] );
             }
         }
         else {
-- 
2.43.0


From 474cacde0e2e2df07f0ff0e49e428d78e950e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:33 +0000
Subject: [PATCH 029/100] fix: continuousSystem ignores the direct feedthrough
 of biproper transfer functions

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 36507bb..1613e8c 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -235,7 +235,7 @@ real_t continuousSystem::update( const real_t u )
         /*compute the remaining part of the output*/
     }
     /*get the output of the system*/
-    y += ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ];
+    y += ( ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ] ) + ( b0*u );
 
     return y;
 }
-- 
2.43.0


From eae7806ca36b719aa03bd2f46557bf5dcd8e00cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:12 +0000
Subject: [PATCH 030/100] fix: pidController::setup() validates the stored time
 step instead of the supplied one

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index d38fdef..b25ec87 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -14,7 +14,7 @@ bool pidController::setup( const real_t kc,
 {
     bool retValue = false;
 
-    if ( dt > 0.0_re ) {
+    if ( dT > 0.0_re ) {
         dt = dT;
         isInitialized = true;
         (void)setDerivativeFilter( 0.98_re );
-- 
2.43.0


From c83f1efdf4f34b0acc10119b6ece646f160465be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:12 +0000
Subject: [PATCH 031/100] fix: pidController derives its weighted error against
 the last integrated value

---
 src/include/pid.hpp | 11 +++++++++++
 src/pid.cpp         |  3 ++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/include/pid.hpp b/src/include/pid.hpp
index b661adc..10512cb 100644
--- a/src/include/pid.hpp
+++ b/src/include/pid.hpp
@@ -141,6 +141,7 @@ namespace qlibs {
             real_t m, mInput;
             const real_t *yr{ nullptr };
             real_t alpha, gamma; /*MRAC additive controller parameters*/
+            nState d_state; /*Derivative state*/
             nState m_state; /*MRAC additive controller state*/
             nState b_state; /*Bumpless-transfer state*/
             pidAutoTuning *adapt{ nullptr };
@@ -395,6 +396,16 @@ namespace qlibs {
             */
             bool reset( void ) noexcept;
 
+            /**
+            * @brief Set the numerical derivation method of the derivative action.
+            * @param[in] m The desired derivation method.
+            * @return none
+            */
+            inline void setDerivationMethod( derivationMethod m ) noexcept
+            {
+                d_state.setDerivationMethod( m );
+            }
+
             /**
             * @brief Retrieve the current PID gains.
             * @return A struct with the pid gains @a Kc @a Ki and @a Kd
diff --git a/src/pid.cpp b/src/pid.cpp
index b25ec87..dbb2abe 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -217,6 +217,7 @@ bool pidController::reset( void ) noexcept
 
     if ( isInitialized ) {
         init(); //internal controller state
+        d_state.init();
         m_state.init();
         b_state.init();
         D = 0.0_re;
@@ -285,7 +286,7 @@ real_t pidController::control( const real_t w,
             kd = ( kd > 0.0_re ) ? -kd : kd;
         }
         e = error( w, y );
-        de = derive( error( w, y, c ) , dt, false );
+        de = d_state.derive( error( w, y, c ) , dt );
         ie = integrate( e + u1 , dt );
         D = de + beta*( D - de ); /*derivative filtering*/
         v  = ( kc*error( w, y, b ) ) + ( ki*ie ) + ( kd*D ); /*compute PID action*/
-- 
2.43.0


From 17940a8db8a28f59ade2e5a9c1d0e91a5b28a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 032/100] fix: trimf and trapmf with a vertical right flank are
 0 instead of 1 at their corner

---
 src/fisCore.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index e2c5a5e..9dd1190 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -18,7 +18,8 @@ real_t fis::core::TriMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
     c = p[ 2 ];
-    tmp = Min( ( x - a )/( b - a ) , ( c - x )/( c - b ) );
+    tmp = ( x < b ) ? ( ( x - a )/( b - a ) ) : 1.0_re;
+    tmp = ( x > b ) ? ( ( c - x )/( c - b ) ) : tmp;
 
     return Max( tmp , 0.0_re );
 }
@@ -35,8 +36,8 @@ real_t fis::core::TrapMF( const fis::ioBase * const in,
     b = p[ 1 ];
     c = p[ 2 ];
     d = p[ 3 ];
-    tmp = Min( ( x - a )/( b - a ) , 1.0_re );
-    tmp = Min( tmp, ( d - x )/( d - c ) ) ;
+    tmp = ( x < b ) ? ( ( x - a )/( b - a ) ) : 1.0_re;
+    tmp = ( x > c ) ? ( ( d - x )/( d - c ) ) : tmp;
 
     return Max( tmp , 0.0_re );
 }
-- 
2.43.0


From 3d5c687f7a8c192fd9938f92a61f19cde6182fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 033/100] fix: gauss2mf applies its right flank on the left of
 the second center

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 9dd1190..28c5046 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -82,7 +82,7 @@ real_t fis::core::Gauss2MF( const fis::ioBase * const in,
     c1 = p[ 1 ];
     c2 = p[ 3 ];
     f1 = ( x <= c1 ) ? GaussMF( in , p, n ) : 1.0_re;
-    f2 = ( x <= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
+    f2 = ( x >= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
 
     return f1*f2;
 }
-- 
2.43.0


From 54f7d1367fc039367aa5bca7cd99022b338e24cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 034/100] fix: linzmf and tlinzmf rise instead of falling
 between their points

---
 src/fisCore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 28c5046..00b2a55 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -287,7 +287,7 @@ real_t fis::core::LinZMF( const fis::ioBase * const in,
             y = 0.0_re;
         }
         else {
-            y = ( a - x )/( a - b );
+            y = ( b - x )/( b - a );
         }
     }
     else if ( ffmath::isEqual( a, b ) ) {
@@ -413,7 +413,7 @@ real_t fis::core::TLinZMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
 
-    return a - ( ( a - b )*x );
+    return b - ( ( b - a )*x );
 }
 /*============================================================================*/
 real_t fis::core::TRampMF( const ioBase * const in,
-- 
2.43.0


From c04a085208759bfde80935e6ba5051b397cf95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 035/100] fix: tconcavemf does not invert concavemf

---
 src/fisCore.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 00b2a55..d07f1c0 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -366,12 +366,14 @@ real_t fis::core::TConcaveMF( const fis::ioBase * const in,
                               const real_t *p,
                               const size_t n )
 {
+    const real_t x = in[ 0 ].value;
     real_t i, e;
+    (void)n;
 
     i = p[ 0 ];
     e = p[ 1 ];
 
-    return ( ( i - e )/ConcaveMF( in, p, n ) ) + ( 2.0_re*e ) - i;
+    return ( ( i - e )/x ) + ( 2.0_re*e ) - i;
 }
 /*============================================================================*/
 real_t fis::core::SpikeMF( const fis::ioBase * const in,
-- 
2.43.0


From 6b7d20e582032d7cd644010830f2b8be8521e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 036/100] fix: tsmf and tzmf do not invert smf and zmf

---
 src/fisCore.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index d07f1c0..6eed409 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -199,7 +199,7 @@ real_t fis::core::TSMF( const fis::ioBase * const in,
     ta = a + ffmath::sqrt( x*diff );
     tmp.value = ta;
     ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( -( x - 1.0_re )*diff );
+    tb = b - ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = tb;
     mb = SMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
@@ -315,10 +315,10 @@ real_t fis::core::TZMF( const fis::ioBase * const in,
     diff = 0.5_re*diff*diff;
     ta = a + ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = ta;
-    ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( x*diff );
+    ma = ZMF( &tmp, p, n );
+    tb = b - ffmath::sqrt( x*diff );
     tmp.value = tb;
-    mb = SMF( &tmp, p, n );
+    mb = ZMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
 }
 /*============================================================================*/
-- 
2.43.0


From 24dc3b2ecfb013f620fdb4408ad004231348063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 037/100] fix: Tsukamoto consequents are evaluated at the first
 input instead of the rule strength

---
 src/fis.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index d2fdcc3..140fc97 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -382,7 +382,17 @@ size_t fis::instance::inferenceConsequent( size_t i ) noexcept
         }
         else { /* Sugeno and Tsukamoto*/
             real_t zi;
-            zi = m.membership( xInput, nInputs );
+            if ( Tsukamoto == xType ) {
+                fis::ioBase w; /*consequents are evaluated at the rule strength*/
+
+                w.value = wi[ ruleCount ];
+                w.min = o.min;
+                w.max = o.max;
+                zi = m.membership( &w );
+            }
+            else {
+                zi = m.membership( xInput, nInputs );
+            }
             o.v[ sum_wz ] += zi*wi[ ruleCount ];
             o.v[ sum_w ] += wi[ ruleCount ];
         }
-- 
2.43.0


From 89d8f839da73c9fd60c461f7407f26136dda6b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 038/100] fix: som de-fuzzification yields the largest of the
 maxima

---
 src/fisCore.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 6eed409..18edf6b 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -624,17 +624,17 @@ real_t fis::core::deFuzzSOM( fis::output * const o,
 
     switch ( stage ) {
         case FIS_DEFUZZ_COMPUTE:
-            if ( o->y >= o->v[ yMax ] ) {
+            if ( o->y > o->v[ yMax ] ) {
                 o->v[ yMax ] = o->y;
-                o->v[ xLargest ] = o->x;
+                o->v[ xSmallest ] = o->x;
             }
             break;
         case FIS_DEFUZZ_INIT:
             o->v[ yMax ] = -1.0_re;
-            o->v[ xLargest ] = o->min;
+            o->v[ xSmallest ] = o->min;
             break;
         case FIS_DEFUZZ_END:
-            d = o->v[ xLargest ];
+            d = o->v[ xSmallest ];
             break;
         default:
             break;
-- 
2.43.0


From 5ad10f4c10d6ef28403008c498e4c2e39245d48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 039/100] fix: implication accepts the unsupported FIS_MAX and
 FIS_PROBOR

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 140fc97..dcd02ed 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -19,7 +19,7 @@ bool fis::instance::setParameter( const fis::parameter p,
             }
             break;
         case fis::parameter::FIS_Implication:
-            if ( x <= fis::paramValue::FIS_PROBOR ) {
+            if ( x <= fis::paramValue::FIS_PROD ) {
                 implicate = method[ x ];
                 retValue = true;
             }
-- 
2.43.0


From 7a6d07bef1c593fe88786dd9a5c83b31f4b20669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 040/100] fix: fis setters and getters access memory outside
 the arrays for tags out of range

---
 src/fis.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index dcd02ed..7b10baf 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -122,7 +122,7 @@ bool fis::instance::setupInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].min = Min;
         xInput[ t ].max = Max;
@@ -139,7 +139,7 @@ bool fis::instance::setupOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         xOutput[ t ].min = Min;
         xOutput[ t ].max = Max;
@@ -172,7 +172,7 @@ bool fis::instance::setInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].value = value;
         /*cstat +CERT-STR34-C*/
@@ -187,7 +187,7 @@ bool fis::instance::getOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xOutput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         value = xOutput[ t ].value;
         /*cstat +CERT-STR34-C*/
@@ -217,7 +217,11 @@ bool fis::instance::setMF( fis::mf *m,
         &TLinSMF, &TLinZMF, &TConcaveMF, &TSigMF, &TSMF, &TZMF, &TRampMF
     };
 
-    if ( ( io >= 0 ) && ( mf >= 0 ) && ( s < FIS_NUM_MFS ) ) {
+    const size_t nIO = ( m == inMF ) ? nInputs : nOutputs;
+    const size_t nMF = ( m == inMF ) ? nMFInputs : nMFOutputs;
+
+    if ( ( io >= 0 ) && ( static_cast<size_t>( io ) < nIO ) &&
+         ( mf >= 0 ) && ( static_cast<size_t>( mf ) < nMF ) && ( s < FIS_NUM_MFS ) ) {
         /*cstat -CERT-STR34-C*/
         m[ mf ].shape = ( nullptr != customMf ) ? customMf : fShape[ s ];
         m[ mf ].index = static_cast<size_t>( io );
-- 
2.43.0


From 140c734d33ca1e5fa04bbd0698c17e5569c0c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 041/100] fix: fis operator[] reads the inputs when the output
 tag is out of range

---
 src/include/fis.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 924e8c7..53cdbe8 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -833,7 +833,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xInput[ nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xOutput[ nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
@@ -1168,7 +1168,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xInput[ sys.nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xOutput[ sys.nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
-- 
2.43.0


From 16cc0d0c9bbfb43380f04d4290f88965c48cc1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 042/100] fix: inference accepts rules on the input one past
 the last

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 7b10baf..927cb37 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -304,7 +304,7 @@ size_t fis::instance::inferenceAntecedent( size_t i ) noexcept
     op = getFuzzOperator();
     rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
 
-    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) > nInputs ) ) {
+    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) >= nInputs ) ) {
         i = INFERENCE_ERROR;
     }
     else {
-- 
2.43.0


From 81eadbe6f18381efd07715b51aa37a75dede55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 043/100] fix: fis setup without rule strength storage succeeds
 and inference then dereferences null

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 927cb37..66d9797 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -88,7 +88,7 @@ bool fis::instance::setup( const fis::type t,
          ( nullptr != outputs) && ( no > 0U ) &&
          ( nullptr != mf_inputs) && ( nmi > 0U ) &&
          ( nullptr != mf_outputs) && ( nmo > 0U ) &&
-         ( nullptr != r ) && ( n > 0U )
+         ( nullptr != r ) && ( n > 0U ) && ( nullptr != rWeights )
        ) {
         xType = t;
         xInput = inputs;
-- 
2.43.0


From 526099faf982cc9c87c8128d4878c399504b589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 044/100] fix: fis setup keeps the rule weights of the previous
 rule set

---
 src/fis.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fis.cpp b/src/fis.cpp
index 66d9797..caf576a 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -101,6 +101,8 @@ bool fis::instance::setup( const fis::type t,
         nMFOutputs = nmo;
         xRules = r;
         wi = rWeights;
+        ruleWeight = nullptr;
+        lastTag = -1;
         nRules = n;
         deFuzz = ( Mamdani == xType )? &deFuzzCentroid : &deFuzzWtAverage;
         (void)setParameter( FIS_AND, FIS_MIN );
-- 
2.43.0


From aff55eca6d3f50e80a6486ebec5d8e90d26788bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:17 +0000
Subject: [PATCH 045/100] fix: interp1 next neighbor skips the first point for
 inputs below the table

---
 src/interp1.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index a40ecf6..2c12595 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -39,18 +39,12 @@ real_t interp1::next( const real_t x,
         size_t nearestIndex = tableSize - 1U;
 
         for ( size_t i = 0U ; i < tableSize - 1U ; ++i ) {
-            if ( x < tx[ i + 1U ] ) {
+            if ( x < tx[ i ] ) {
                 nearestIndex = i;
                 break;
             }
         }
-
-        if ( x >= tx[ tableSize - 1U ] ) {
-            y = ty[ tableSize - 1U ];
-        }
-        else {
-            y = ty[ nearestIndex + 1U ];
-        }
+        y = ty[ nearestIndex ];
     }
 
     return y;
-- 
2.43.0


From 5ab4c6ddb702cea07537204b691761b42d638459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:17 +0000
Subject: [PATCH 046/100] fix: interp1 sine always interpolates on the last
 interval

---
 src/interp1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 2c12595..d4cb7a3 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -171,6 +171,7 @@ real_t interp1::sine( const real_t x,
                     const real_t y1 = ty[ i];
                     const real_t w = 0.5_re - 0.5_re*ffmath::cos( ffmath::FFP_PI*( x - x0 )/( x1 - x0 ) );
                     y = y0 + w*( y1 - y0 );
+                    break;
                 }
             }
         }
-- 
2.43.0


From 98d1cad931787cb829b7ea4207754756c04fc842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:17 +0000
Subject: [PATCH 047/100] fix: interp1 cubic reads before the table and uses
 differences instead of slopes

---
 src/interp1.cpp | 63 +++++++++++++------------------------------------
 1 file changed, 17 insertions(+), 46 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index d4cb7a3..6f6c7bd 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -186,55 +186,26 @@ real_t interp1::cubic( const real_t x,
 {
     real_t y = ffmath::getNan();
     if ( ( tableSize >= 4U ) && ( nullptr != tx ) && ( nullptr != ty ) ) {
-        if ( x < tx[ 0 ] ) {
-            const real_t x0 = tx[ 0 ];
-            const real_t x1 = tx[ 1 ];
-            const real_t y0 = ty[ 0 ];
-            const real_t y1 = ty[ 1 ];
-            const real_t h = x1 - x0;
-            const real_t t = ( x - x0 )/h;
-            const real_t t2 = t*t;
-            const real_t t3 = t2*t;
+        size_t i = 1U; /*the end intervals are also used for extrapolation*/
 
-            y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
-                ( t3 - 2.0_re*t2 + t )*h*( y0 - y1 ) +
-                ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
-                ( t3 - t2 )*h*( y1 - y0 );
+        while ( ( i < ( tableSize - 1U ) ) && ( x > tx[ i ] ) ) {
+            ++i;
         }
-        else if ( x > tx[ tableSize - 1U ] ) {
-            const real_t x0 = tx[ tableSize - 2U ];
-            const real_t x1 = tx[ tableSize - 1U ];
-            const real_t y0 = ty[ tableSize - 2U ];
-            const real_t y1 = ty[ tableSize - 1U ];
-            const real_t h = x1 - x0;
-            const real_t t = ( x - x1 )/h;
-            const real_t t2 = t*t;
-            const real_t t3 = t2*t;
+        const real_t x0 = tx[ i - 1U ];
+        const real_t x1 = tx[ i ];
+        const real_t y0 = ty[ i - 1U ];
+        const real_t y1 = ty[ i ];
+        const real_t h = x1 - x0;
+        const real_t t = ( x - x0 )/h;
+        const real_t t2 = t*t;
+        const real_t t3 = t2*t;
+        const real_t m1 = ( y1 - y0 )/h;
+        const real_t m0 = ( i > 1U ) ? ( y0 - ty[ i - 2U ] )/( x0 - tx[ i - 2U ] ) : m1;
 
-            y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y1 +
-                ( t3 - 2.0_re*t2 + t )*h*( y0 - ty[ tableSize - 3U ] ) +
-                ( -2.0_re*t3 + 3.0_re*t2 )*y0 +
-                ( t3 - t2 )*h*( y1 - y0 );
-        }
-        else {
-            for ( size_t i = 1U; i < tableSize; ++i ) {
-                if ( x <= tx[ i ] ) {
-                    const real_t x0 = tx[ i - 1U ];
-                    const real_t x1 = tx[ i ];
-                    const real_t y0 = ty[ i - 1U ];
-                    const real_t y1 = ty[ i ];
-                    const real_t h = x1 - x0;
-                    const real_t t = ( x - x0 )/h;
-                    const real_t t2 = t*t;
-                    const real_t t3 = t2*t;
-                    y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
-                        ( t3 - 2.0_re*t2 + t )*h*( y0 - ty[ i - 2U ] ) +
-                        ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
-                        ( t3 - t2 )*h*( y1 - y0 );
-                    break;
-                }
-            }
-        }
+        y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
+            ( t3 - 2.0_re*t2 + t )*h*m0 +
+            ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
+            ( t3 - t2 )*h*m1;
     }
     return y;
 }
-- 
2.43.0


From b935bcc87ce6b1870a9b1692744457f77b3c660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:17 +0000
Subject: [PATCH 048/100] fix: interp1 constrained spline is NaN or overshoots
 on its end intervals

---
 src/interp1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 6f6c7bd..113b3a4 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -385,13 +385,13 @@ real_t interp1::firstDerivate( const real_t * const tx,
         const real_t dx = tx[ 1 ] - tx[ 0 ];
         const real_t dy = ty[ 1 ] - ty[ 0 ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ 2 ] - tx[ 0 ] )/( ty[ 2 ] - ty[ 0 ] ) + dx/dy );
+        fd1_x -= 0.5_re*firstDerivate( tx, ty, n, 1U );
     }
     else if ( n == i ) {
         const real_t dx = tx[ n ] - tx[ n - 1U ];
         const real_t dy = ty[ n ] - ty[ n - 1U ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ n ] - tx[ n - 2U ] )/( ty[ n ] - ty[ n - 2U ] ) + ( dx/dy ) );
+        fd1_x -= 0.5_re*firstDerivate( tx, ty, n, n - 1U );
     }
     else {
         const real_t tmp1 = ( tx[ i + 1U ] - tx[ i ] )/( ty[ i + 1U ] - ty[ i ] );
-- 
2.43.0


From 5176331678dfd28f0f0ef901ea18eb3a5d724265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:25 +0000
Subject: [PATCH 049/100] fix: interp1 constrained spline swaps the second
 derivatives of each interval

---
 src/interp1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 113b3a4..5eb811b 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -347,8 +347,8 @@ real_t interp1::cSpline( const real_t x,
             const real_t x0_2 = x0*x0;
             const real_t x0_3 = x0_2*x0;
             const real_t inv_x0_x1 = 1.0_re/x0_x1;
-            const real_t d = ( fd2i_x - fd2i_xl1 )*( 0.166666667_re*inv_x0_x1 );
-            const real_t c = ( ( x0*fd2i_xl1 ) - ( x1*fd2i_x ) )*( 0.5_re*inv_x0_x1 );
+            const real_t d = ( fd2i_xl1 - fd2i_x )*( 0.166666667_re*inv_x0_x1 );
+            const real_t c = ( ( x0*fd2i_x ) - ( x1*fd2i_xl1 ) )*( 0.5_re*inv_x0_x1 );
             const real_t b = ( y0 - y1 - c*( x0_2 - x1_2 ) - d*( x0_3 - x1_3 ) )*inv_x0_x1;
             const real_t a = y1 - ( b*x1 ) - ( c*x1_2 ) - ( d*x1_3 );
             y = a + x*( b + x*( c + ( x*d ) ) );
-- 
2.43.0


From 199f7ce01400f43aaa76914f886eefa0da9ba0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 050/100] fix: algorithm::sort with a comparison function does
 not sort

The elements were compared with whatever lies at the partition index
instead of with the pivot.
---
 src/include/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 372bd5f..7cc450c 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -118,7 +118,7 @@ namespace qlibs {
 
                     for ( int i = start; i < end; ++i ) {
                         if ( nullptr != comp ) {
-                            if ( comp( array[ i ], array[ pivotIndex ] ) ) {
+                            if ( comp( array[ i ], pivotValue ) ) {
                                 algorithm::swap( array[ i ], array[ pivotIndex ] );
                                 ++pivotIndex;
                             }
-- 
2.43.0


From e43a80d41fc43194eb2d645d516d29ebb1cce212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 051/100] fix: algorithm::rotate left by a multiple of the size
 writes outside the array

With r = 0 the last position r - 1U wraps around.
---
 src/include/algorithm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 7cc450c..c2f0f3e 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -188,7 +188,9 @@ namespace qlibs {
                     r = static_cast<size_t>( -k );
                     /*cstat +MISRAC++2008-5-0-9*/
                     r %= n;
-                    algorithm::reverse( array, 0U, r - 1U );
+                    if ( r > 0U ) {
+                        algorithm::reverse( array, 0U, r - 1U );
+                    }
                     algorithm::reverse( array, r, n - 1U );
                     algorithm::reverse( array, 0U, n - 1U );
                 }
-- 
2.43.0


From 36c8d73f68355522b2b49f67ddff535c4c7f2833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 052/100] fix: algorithm::rotate negates INT_MIN

-k overflows for the smallest int; build the magnitude without overflow.
---
 src/include/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index c2f0f3e..2f5b3c0 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -185,7 +185,7 @@ namespace qlibs {
                 }
                 else {
                     /*cstat -MISRAC++2008-5-0-9*/
-                    r = static_cast<size_t>( -k );
+                    r = static_cast<size_t>( -( k + 1 ) ) + 1U;
                     /*cstat +MISRAC++2008-5-0-9*/
                     r %= n;
                     if ( r > 0U ) {
-- 
2.43.0


From 91a4ddb2816ca169e5ea892e28e37794b76c0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 053/100] fix: algorithm::replace and replace_if stop after the
 first match

They are documented to replace all elements that satisfy the criteria.
---
 src/include/algorithm.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 2f5b3c0..40fb474 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -329,7 +329,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( old_value == array[ i ] ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
@@ -356,7 +355,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
-- 
2.43.0


From 86f0db8878af173bb28aea07250accd90fda7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 054/100] fix: algorithm::find_if returns the last match

It is documented to return the first element for which pred holds.
---
 src/include/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 40fb474..a9be7bd 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -413,6 +413,7 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     found = &array[ i ];
+                    break;
                 }
             }
             return found;
-- 
2.43.0


From f1ea1e946f2a33f14fd97ffb8f516afb68c64d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:14 +0000
Subject: [PATCH 055/100] fix: mat pre-decrement increments the matrix

---
 src/include/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 680733f..f2c6255 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -257,7 +257,7 @@ namespace qlibs {
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        ++m[i][j];
+                        --m[i][j];
                     }
                 }
                 return *this;
-- 
2.43.0


From 2737da5a036da47a2792e2c5471679af6129e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:14 +0000
Subject: [PATCH 056/100] fix: mat::normInf walks outside non-square matrices

The row index ran up to the number of columns and vice versa.
---
 src/include/mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index f2c6255..117c308 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -470,9 +470,9 @@ namespace qlibs {
                 size_t i,j;
                 real_t maxM =0.0_re, sum = 0.0_re;
 
-                for ( i = 0U ; i < Cols; i++ ) {
+                for ( i = 0U ; i < Rows; i++ ) {
                     sum = 0.0_re;
-                    for ( j = 0U ; j < Rows ; ++j ) {
+                    for ( j = 0U ; j < Cols ; ++j ) {
                         sum += ( m[i][j] < 0.0_re ) ? -m[i][j] : m[i][j];
                     }
                     if ( 0U == i ) {
-- 
2.43.0


From 2accdd50336d9d0ae0ed3d4ca8eb545a2c2a5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:14 +0000
Subject: [PATCH 057/100] fix: mat::inv fails on invertible matrices with a
 zero pivot

Without row exchanges [0 1; 1 0] gives NaN and small pivots destroy the
result. Use partial pivoting.
---
 src/include/mat.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 117c308..3c3c96e 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -445,6 +445,23 @@ namespace qlibs {
                 mat<Rows,Rows> I( MAT_IDENTITY );
 
                 for ( size_t i = 0; i < Rows; ++i ) {
+                    // Bring the largest element of the column to the diagonal
+                    size_t p = i;
+                    for ( size_t j = i + 1U; j < Rows; ++j ) {
+                        if ( ffmath::absf( X(j, i) ) > ffmath::absf( X(p, i) ) ) {
+                            p = j;
+                        }
+                    }
+                    if ( p != i ) {
+                        for ( size_t j = 0; j < Rows; ++j ) {
+                            real_t tmp = X(i, j);
+                            X(i, j) = X(p, j);
+                            X(p, j) = tmp;
+                            tmp = I(i, j);
+                            I(i, j) = I(p, j);
+                            I(p, j) = tmp;
+                        }
+                    }
                     real_t pivot = X(i, i);
                     // Make the diagonal element 1
                     for ( size_t j = 0; j < Rows; ++j ) {
-- 
2.43.0


From 2c98c568f712740242f9420d5d24a589f3d2d48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:14 +0000
Subject: [PATCH 058/100] fix: mat compound scalar operators with an element of
 the matrix itself

The scalar is taken by reference and changes as soon as its own element is
updated: A /= A(0,0) divided only that element.
---
 src/include/mat.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 3c3c96e..f32b4a1 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -314,9 +314,10 @@ namespace qlibs {
 
             // Overload the compound multiplication operator (*=) with scalar
             mat<Rows, Cols>& operator*=(const real_t& scalar) {
+                const real_t value = scalar; // may be an element of this matrix
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] *= scalar;
+                        m[i][j] *= value;
                     }
                 }
                 return *this;
@@ -324,9 +325,10 @@ namespace qlibs {
 
             // Overload the compound multiplication operator (*=) with scalar
             mat<Rows, Cols>& operator/=(const real_t& scalar) {
+                const real_t value = scalar; // may be an element of this matrix
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] /= scalar;
+                        m[i][j] /= value;
                     }
                 }
                 return *this;
@@ -335,9 +337,10 @@ namespace qlibs {
             // Overload the compound addition operator (+=) with a scalar
             mat<Rows, Cols>& operator+=(const real_t& scalar)
             {
+                const real_t value = scalar; // may be an element of this matrix
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] += scalar;
+                        m[i][j] += value;
                     }
                 }
                 return *this;
@@ -346,9 +349,10 @@ namespace qlibs {
             // Overload the compound subtraction operator (-=) with a scalar
             mat<Rows, Cols>& operator-=(const real_t& scalar)
             {
+                const real_t value = scalar; // may be an element of this matrix
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        m[i][j] -= scalar;
+                        m[i][j] -= value;
                     }
                 }
                 return *this;
-- 
2.43.0


From 3d9817b390732624e4fb722373434000d3813d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 059/100] fix: ffmath::sqrt of a subnormal number is negative

The exponent arithmetic of the first guess wraps around below FLT_MIN.
---
 src/ffmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7bfd6ba..e83e6ec 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -208,6 +208,9 @@ float ffmath::sqrt( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = 0.0F;
     }
+    else if ( x < limits::Min() ) {
+        retVal = ffmath::sqrt( x*16777216.0F )/4096.0F;
+    }
     else {
         uint32_t y = bit_cast<uint32_t>( x );
         float z = 0.0F;
-- 
2.43.0


From 0ada2762984a321790bd2c55ecb64691609b9b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 060/100] fix: ffmath::rSqrt of infinity and of subnormal
 numbers

1/sqrt(inf) was -inf and below FLT_MIN the first guess is off by orders of
magnitude.
---
 src/ffmath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index e83e6ec..94b6060 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -234,6 +234,12 @@ float ffmath::rSqrt( float x )
     else if ( ffmath::classification::FFP_ZERO  == ffmath::classify( x ) ) {
         retVal = limits::infinity();
     }
+    else if ( x < limits::Min() ) {
+        retVal = ffmath::rSqrt( x*16777216.0F )*4096.0F;
+    }
+    else if ( ffmath::isInf( x ) ) {
+        retVal = 0.0F;
+    }
     else {
         uint32_t y = bit_cast<uint32_t>( x );
         const float z = 0.5F*x;
-- 
2.43.0


From 75e9e6e759885a09f621487a5de9163507db1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 061/100] fix: ffmath::cbrt and rCbrt of negative numbers

The first guess was built from the bits before the sign was removed.
---
 src/ffmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 94b6060..da39b64 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -257,13 +257,14 @@ static float compute_cbrt( float x , bool r )
     float retVal, y = 0.0F, c, d;
     const float k[ 3 ] = { 1.752319676F, 1.2509524245F, 0.5093818292F };
     constexpr float c13 = 1.0F/3.0F;
-    uint32_t i = bit_cast<uint32_t>( x );
+    uint32_t i;
     bool neg = false;
 
     if ( x < 0.0F ) {
         x = -x;
         neg = true;
     }
+    i = bit_cast<uint32_t>( x );
     i = 0x548C2B4BU - ( i/3U );
     y = bit_cast<float>( i );
     c = x*y*y*y;
-- 
2.43.0


From f192f955667b2ccd20baa25fa8e569be3a914b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 062/100] fix: ffmath::cbrt(inf) is -inf and rCbrt(inf) is not
 zero

---
 src/ffmath.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index da39b64..1399606 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -279,13 +279,14 @@ static float compute_cbrt( float x , bool r )
 /*============================================================================*/
 float ffmath::cbrt( float x )
 {
-    return compute_cbrt( x, false );
+    return ffmath::isInf( x ) ? x : compute_cbrt( x, false );
 }
 /*============================================================================*/
 float ffmath::rCbrt( float x )
 {
     return ( ffmath::classification::FFP_ZERO  == ffmath::classify( x ) ) ?
-             limits::infinity() : compute_cbrt( x, true );
+             limits::infinity() :
+             ( ffmath::isInf( x ) ? 0.0F : compute_cbrt( x, true ) );
 }
 /*============================================================================*/
 float ffmath::rounding( float x )
-- 
2.43.0


From 775bd13b34dff82bfdf842b1fdb3fd8a2683935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 063/100] fix: ffmath::cbrt and rCbrt of subnormal numbers

The bits were taken as those of a normal number.
---
 src/ffmath.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 1399606..6be4e4e 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -264,6 +264,10 @@ static float compute_cbrt( float x , bool r )
         x = -x;
         neg = true;
     }
+    if ( ( x < limits::Min() ) && ( x > 0.0F ) ) { /* scaled by 2^24, its cubic root by 2^8 */
+        retVal = compute_cbrt( x*16777216.0F, r )*( ( r ) ? 256.0F : 0.00390625F );
+        return ( neg )? -retVal : retVal;
+    }
     i = bit_cast<uint32_t>( x );
     i = 0x548C2B4BU - ( i/3U );
     y = bit_cast<float>( i );
-- 
2.43.0


From 0d4087ce4ae0b45d20037d7800fa9c13071c874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 064/100] fix: ffmath::recip of very large and very small
 numbers

The first guess wraps around or is subnormal: recip(2e38) was NaN, recip(0)
finite.
---
 src/ffmath.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 6be4e4e..f947586 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -189,9 +189,12 @@ float ffmath::absf( float x )
 /*============================================================================*/
 float ffmath::recip( float x )
 {
-    float z = 0.0F;
+    float z = absolute( x );
     uint32_t y = bit_cast<uint32_t>( x );
 
+    if ( ( z < limits::Min() ) || !( z < 4.0e+37F ) ) {
+        return 1.0F/x; /* the guess needs normal numbers */
+    }
     y = 0x7EF311C7U - y;
     z = bit_cast<float>( y );
 
-- 
2.43.0


From d4caaba952b59b61e7c6811dfa265ca4f6bcb185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 065/100] fix: ffmath::rem(0,y) is NaN

The documented convention is rem(x,0) = NaN; the test was made on the dividend.
---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f947586..a49b3e2 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -422,7 +422,7 @@ float ffmath::frac( float x )
 float ffmath::rem( float x,
                    float y )
 {
-    return ( classification::FFP_ZERO == classify( x ) ) ? limits::nan()
+    return ( classification::FFP_ZERO == classify( y ) ) ? limits::nan()
                                                          : ( x - ( y*ffmath::trunc( x/y ) ) );
 }
 /*============================================================================*/
-- 
2.43.0


From d2a5eca5e718648eae9bb417791dfd21981b70a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 066/100] fix: ffmath::atan(inf) is NaN

This also makes atan2 NaN as soon as y/x overflows, e.g. atan2(1e30,1e-30).
---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index a49b3e2..228c551 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -517,7 +517,7 @@ float ffmath::atan( float x )
 {
     float abs_x;
 
-    x /= absolute( x ) + 1.0F;
+    x = ffmath::isInf( x ) ? ffmath::copysign( 1.0F, x ) : ( x/( absolute( x ) + 1.0F ) );
     abs_x = absolute( x );
 
     return x*( ( abs_x*( ( -1.45667498914F*abs_x ) + 2.18501248371F ) ) + 0.842458832225F );
-- 
2.43.0


From 1d146e05aa3010f06d95a64a069b83aa3d516ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 067/100] fix: ffmath::exp2 overflows half a power of two too
 early and shifts a NaN

For 127.5 <= x < 128 the integer part was rounded to 128, whose exponent is
infinity. A NaN was converted to an integer and shifted, which is undefined.
---
 src/ffmath.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 228c551..9df3dcc 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -542,14 +542,17 @@ float ffmath::exp2( float x )
     if ( x <= -126.0F ) {
         retVal = 0.0F;
     }
-    else if ( x > 128.0F ) {
+    else if ( x >= 128.0F ) {
         retVal = limits::infinity();
     }
+    else if ( ffmath::isNan( x ) ) {
+        retVal = x;
+    }
     else {
         float ip, fp;
         int32_t ep_i;
 
-        ip = ffmath::floor( x + 0.5F );
+        ip = ( x < 127.5F ) ? ffmath::floor( x + 0.5F ) : 127.0F;
         fp = x - ip;
         /*cstat -CERT-FLP34-C -MISRAC++2008-5-0-21*/
         ep_i = ( static_cast<int32_t>( ip ) + 127 ) << 23;
-- 
2.43.0


From 88cc4d1802b785a4ea1c66f5f5d36f97f1426f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 068/100] fix: ffmath::log2 of NaN, infinity and subnormal
 numbers

The bits were taken as those of a normal number: log2(NaN) was 128.58 and
log2(inf) 128.
---
 src/ffmath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 9df3dcc..c934228 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -580,6 +580,12 @@ float ffmath::log2( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = -limits::infinity();
     }
+    else if ( !ffmath::isFinite( x ) ) {
+        retVal = x;
+    }
+    else if ( x < limits::Min() ) {
+        retVal = ffmath::log2( x*8388608.0F ) - 23.0F;
+    }
     else {
         float z, px;
         int32_t ip, fp;
-- 
2.43.0


From 289789607060142923391e6b2f35020bbee6ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 069/100] fix: ffmath::tanh is NaN for x below -44

exp(-2x) overflows and the quotient becomes inf/inf.
---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index c934228..5356b8e 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -677,8 +677,8 @@ float ffmath::cosh( float x )
 /*============================================================================*/
 float ffmath::tanh( float x )
 {
-    x = ffmath::exp( -2.0F*x );
-    return ( 1.0F - x )/( 1.0F + x );
+    const float z = ffmath::exp( -2.0F*absolute( x ) );
+    return ffmath::copysign( ( 1.0F - z )/( 1.0F + z ), x );
 }
 /*============================================================================*/
 float ffmath::asinh( float x )
-- 
2.43.0


From 373b822b9ccb13dc8a424e36afd59f2091fd3f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 070/100] fix: ffmath::asinh of large negative numbers

x + sqrt(x*x + 1) cancels completely, asinh(-5000) was -inf, and x*x
overflows early.
---
 src/ffmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 5356b8e..86001c0 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -683,7 +683,8 @@ float ffmath::tanh( float x )
 /*============================================================================*/
 float ffmath::asinh( float x )
 {
-    return ffmath::log( x + ffmath::sqrt( ( x*x ) + 1.0F ) );
+    const float z = absolute( x );
+    return ffmath::copysign( ffmath::log( z + ffmath::hypot( z, 1.0F ) ), x );
 }
 /*============================================================================*/
 float ffmath::acosh( float x )
-- 
2.43.0


From 1636a5e6ab0fa77f314d6e9a2129023c66177fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 071/100] fix: ffmath::acosh overflows for x above 1.8e19

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 86001c0..4edc4e9 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -690,7 +690,7 @@ float ffmath::asinh( float x )
 float ffmath::acosh( float x )
 {
     return ( x < 1.0F ) ? limits::nan()
-                        : ffmath::log( x + ffmath::sqrt( ( x*x ) - 1.0F ) );
+                        : ffmath::log( x + ( ffmath::sqrt( x - 1.0F )*ffmath::sqrt( x + 1.0F ) ) );
 }
 /*============================================================================*/
 float ffmath::atanh( float x )
-- 
2.43.0


From 77bd37e5870e93fd0d3edd49f0cab6d19dfd09f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 072/100] fix: ffmath angle wrapping of positive multiples of
 the period

As documented, pi wraps to pi and positive multiples of 2*pi to 2*pi; they
wrapped to -pi and 0 (and likewise for degrees).
---
 src/ffmath.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 4edc4e9..b623e50 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -700,22 +700,26 @@ float ffmath::atanh( float x )
 /*============================================================================*/
 float ffmath::wrapToPi( float x )
 {
-    return ffmath::mod( x + ffmath::FFP_PI, ffmath::FFP_2PI ) - ffmath::FFP_PI;
+    return ( absolute( x ) <= ffmath::FFP_PI ) ? x
+           : ( ffmath::wrapTo2Pi( x + ffmath::FFP_PI ) - ffmath::FFP_PI );
 }
 /*============================================================================*/
 float ffmath::wrapTo2Pi( float x )
 {
-    return ffmath::mod( x, ffmath::FFP_2PI );
+    const float y = ffmath::mod( x, ffmath::FFP_2PI );
+    return ( ( x > 0.0F ) && ( y <= 0.0F ) ) ? ffmath::FFP_2PI : y;
 }
 /*============================================================================*/
 float ffmath::wrapTo180( float x )
 {
-    return ffmath::mod( x + 180.0F, 360.0F ) - 180.0F;
+    return ( absolute( x ) <= 180.0F ) ? x
+           : ( ffmath::wrapTo360( x + 180.0F ) - 180.0F );
 }
 /*============================================================================*/
 float ffmath::wrapTo360( float x )
 {
-    return ffmath::mod( x, 360.0F );
+    const float y = ffmath::mod( x, 360.0F );
+    return ( ( x > 0.0F ) && ( y <= 0.0F ) ) ? 360.0F : y;
 }
 /*============================================================================*/
 float ffmath::midpoint( float a,
-- 
2.43.0


From 32e56d73b8bdb1ee036897a5093543123f75b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 073/100] fix: ffmath::inPolygon compares with the wrong
 ordinate of the edge

The ordinate of the edge at x is dy*(x - px)/dx + py; the parentheses put py
into the divisor.
---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index b623e50..afba940 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -832,7 +832,7 @@ bool ffmath::inPolygon( const float x,
             if ( ( px[ i ] > x ) != ( px[ j ] > x ) ) {
                 const float dx = px[ j ] - px[ i ];
                 const float dy = py[ j ] - py[ i ];
-                if ( y < ( ( dy*( x - px[ i ] ) )/( dx + py[ i ] ) ) ) {
+                if ( y < ( ( ( dy*( x - px[ i ] ) )/dx ) + py[ i ] ) ) {
                     retVal = !retVal;
                 }
             }
-- 
2.43.0


From a2ecf4e795f89af15415fb7ac05f9cea4645fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 074/100] fix: ffmath::erf is not the error function

erf(0) was -0.75 and erf(3.3) -0.5. Even with the misplaced parentheses
corrected the logistic approximation with this constant is wrong by 0.18, so
use the usual rational approximation.
---
 src/ffmath.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index afba940..33875ce 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -857,12 +857,20 @@ float ffmath::erf( float x )
 {
     float retVal;
 
-    if ( x >= 6.912F ) {
-        retVal = 1.0F;
+    if ( ffmath::isNan( x ) ) {
+        retVal = x;
     }
-    else {
-        x = ffmath::exp( 3.472034176F*x );
-        retVal = ( x/( ( absolute( x ) + 1.0F )*2.0F ) ) - 1.0F;
+    else { /* Abramowitz and Stegun, 7.1.26 */
+        const float z = absolute( x );
+        const float t = 1.0F/( 1.0F + ( 0.3275911F*z ) );
+
+        retVal = 1.061405429F;
+        retVal = ( retVal*t ) - 1.453152027F;
+        retVal = ( retVal*t ) + 1.421413741F;
+        retVal = ( retVal*t ) - 0.284496736F;
+        retVal = ( retVal*t ) + 0.254829592F;
+        retVal = 1.0F - ( retVal*t*ffmath::exp( -z*z ) );
+        retVal = ffmath::copysign( retVal, x );
     }
 
     return retVal;
-- 
2.43.0


From 91eeecd7a9b59a7db52421324b9e9c81d960e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 075/100] fix: ffmath::rexp of zero and subnormal numbers

Zero was decomposed into 0.5*2^-126 and subnormal numbers were taken as
normalized.
---
 src/ffmath.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 33875ce..2f7b7b8 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -884,12 +884,22 @@ float ffmath::erfc( float x )
 float ffmath::rexp( float x,
                     int32_t *pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
+    const auto xClass = ffmath::classify( x );
+    uint32_t lu;
     uint32_t iu;
     int32_t i = 0;
 
+    if ( classification::FFP_ZERO == xClass ) {
+        pw2[ 0 ] = 0;
+        return x;
+    }
+    if ( classification::FFP_SUBNORMAL == xClass ) {
+        x *= 16777216.0F;
+        i = -24;
+    }
+    lu = bit_cast<uint32_t>( x );
     iu  = ( lu >> 23U ) & 0x000000FFU;  /* Find the exponent (power of 2) */
-    i = bit_cast<int32_t>( iu );
+    i += bit_cast<int32_t>( iu );
     i -= 0x7E;
     pw2[ 0 ] = static_cast<int>( i );
     lu &= 0x807FFFFFU; /* strip all exponent bits */
-- 
2.43.0


From 52443e80a50bbc96c554c8e84fc83d196380769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 076/100] fix: ffmath::ldexp of zero and subnormal numbers and
 on overflow

The exponent field was added modulo 256: ldexp(0,1) was 1.2e-38 and instead of
overflowing to infinity the result wrapped around to tiny numbers.
---
 src/ffmath.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 2f7b7b8..2658689 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -911,17 +911,20 @@ float ffmath::rexp( float x,
 float ffmath::ldexp( float x,
                      int32_t pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
-    uint32_t eu;
-    int32_t e = 0;
+    constexpr float big = 1.7014118346046923e+38F;     /* 2^127 */
+    constexpr float small = 1.9721522630525295e-31F;   /* 2^-102, keeps a subnormal result in one rounding */
 
-    eu = ( lu >> 23U ) & 0x000000FFU;
-    e = bit_cast<int32_t>( eu );
-    e += pw2;
-    eu = bit_cast<uint32_t>( e );
-    lu = ( ( eu & 0xFFU ) << 23U ) | ( lu & 0x807FFFFFU );
+    for ( int i = 0 ; ( i < 2 ) && ( pw2 > 127 ) ; ++i ) {
+        x *= big;
+        pw2 -= 127;
+    }
+    for ( int i = 0 ; ( i < 2 ) && ( pw2 < -126 ) ; ++i ) {
+        x *= small;
+        pw2 += 102;
+    }
+    pw2 = ( pw2 > 127 ) ? 127 : ( ( pw2 < -126 ) ? -126 : pw2 );
 
-    return bit_cast<float>( lu );
+    return x*bit_cast<float>( static_cast<uint32_t>( pw2 + 127 ) << 23U );
 }
 /*============================================================================*/
 float ffmath::hypot( float x,
-- 
2.43.0


From b03c129719bc0e166e65ea70870babf1537d218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 077/100] fix: ffmath::hypot scales by the smaller side when
 the larger is negative

hypot(-1e30,1e-30) over- or underflowed although the result is representable.
---
 src/ffmath.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 2658689..9d865da 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -938,6 +938,8 @@ float ffmath::hypot( float x,
         float a, b, an, bn;
         int32_t e = 0;
 
+        x = absolute( x );
+        y = absolute( y );
         if ( x >= y ) {
             a = x;
             b = y;
-- 
2.43.0


From a24738dab699dd602cb306d2ea5e5293e76928b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 078/100] fix: ffmath::lgamma is infinite for x above 171.6

That is where gamma overflows in double precision; its logarithm is small there
and overflows only above 4.08e36.
---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 9d865da..5d8f429 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1128,7 +1128,7 @@ static float lgamma_positive( float x )
     constexpr float pnt68 = 0.6796875F;
     float result;
 
-    if ( x > 171.624F ) {
+    if ( x > 4.08e+36F ) {
         result = limits::infinity();
     }
     else {
-- 
2.43.0


From 74339e92013177438c1ab33c5ad35ed393d2b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:56 +0000
Subject: [PATCH 079/100] fix: ffmath::rem has the sign opposite to the
 dividend when the quotient rounds up to an integer

---
 src/ffmath.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 5d8f429..1be553d 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -422,8 +422,19 @@ float ffmath::frac( float x )
 float ffmath::rem( float x,
                    float y )
 {
-    return ( classification::FFP_ZERO == classify( y ) ) ? limits::nan()
-                                                         : ( x - ( y*ffmath::trunc( x/y ) ) );
+    float r;
+
+    if ( classification::FFP_ZERO == classify( y ) ) {
+        r = limits::nan();
+    }
+    else {
+        r = x - ( y*ffmath::trunc( x/y ) );
+        if ( ( ( r < 0.0F ) && ( x > 0.0F ) ) || ( ( r > 0.0F ) && ( x < 0.0F ) ) ) {
+            r += ffmath::copysign( y, x ); /* the quotient was rounded up to an integer */
+        }
+    }
+
+    return r;
 }
 /*============================================================================*/
 float ffmath::mod( float x,
-- 
2.43.0


From 47cd2675be5ca102165e9c5be7855a970360984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:20 +0000
Subject: [PATCH 080/100] fix: ffmath::sinh and cosh are infinite for x between
 -88.7 and -87.3

---
 src/ffmath.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 1be553d..f69c7b5 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -672,15 +672,15 @@ float ffmath::pow( float b,
 /*============================================================================*/
 float ffmath::sinh( float x )
 {
-    const float epx = ffmath::exp( x );
+    const float epx = ffmath::exp( absolute( x ) );
     const float enx = 1.0F/epx;
 
-    return 0.5F*( epx - enx );
+    return ffmath::copysign( 0.5F*( epx - enx ), x );
 }
 /*============================================================================*/
 float ffmath::cosh( float x )
 {
-    const float epx = ffmath::exp( x );
+    const float epx = ffmath::exp( absolute( x ) );
     const float enx = 1.0F/epx;
 
     return 0.5F*( epx + enx );
-- 
2.43.0


From 66a321c2ccf387ab2b53e69680f1feda0230185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 081/100] fix: ffmath::sqrt(inf) is NaN

---
 src/ffmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f69c7b5..9aa2d73 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -214,6 +214,9 @@ float ffmath::sqrt( float x )
     else if ( x < limits::Min() ) {
         retVal = ffmath::sqrt( x*16777216.0F )/4096.0F;
     }
+    else if ( ffmath::isInf( x ) ) {
+        retVal = x;
+    }
     else {
         uint32_t y = bit_cast<uint32_t>( x );
         float z = 0.0F;
-- 
2.43.0


From 82227c2c8f1c838a4d8d721cfd45e7ec4fcfadd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:55 +0000
Subject: [PATCH 082/100] fix: ffmath::sin and cos leave the interval [-1, 1]
 for large angles

---
 src/ffmath.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 9aa2d73..4310632 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -487,8 +487,9 @@ float ffmath::sin( float x )
     }
     else {
         x *= -ffmath::FFP_1_PI;
-        y = x + 25165824.0F;
-        x -= y - 25165824.0F;
+        /* nearest even integer: all larger numbers are even integers */
+        y = ( absolute( x ) < 8388608.0F ) ? ( ( x + 25165824.0F ) - 25165824.0F ) : x;
+        x -= y;
         x *= absolute( x ) - 1.0F;
         y = x*( ( 3.5841304553896F*absolute( x ) ) + 3.1039673861526F );
     }
-- 
2.43.0


From bb011f9938457389c0e1391072f2bb7431f00a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 083/100] fix: ffmath::assoc_laguerre at zero misses the last
 factor

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 4310632..7f71ade 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1469,7 +1469,7 @@ float ffmath::assoc_laguerre( size_t n,
     }
     else if ( ffmath::isEqual( 0.0F, x ) ) {
         float prod = alpha + 1.0F;
-        for ( size_t i = 2U ; i < n ; ++i ) {
+        for ( size_t i = 2U ; i <= n ; ++i ) {
             /*cstat -CERT-FLP36-C*/
             const float k = static_cast<float>( i );
             /*cstat +CERT-FLP36-C*/
-- 
2.43.0


From a495f9650273f82642107305bebe0196ebccaaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 084/100] fix: ffmath::assoc_laguerre uses the large degree
 asymptotic for every degree

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7f71ade..f112d15 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1477,10 +1477,10 @@ float ffmath::assoc_laguerre( size_t n,
         }
         y = prod;
     }
-    else if ( ( alpha > -1.0F ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
+    else if ( ( n > 10000000U ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
         y = poly_laguerre_large_n( n, alpha, x );
     }
-    else if ( ( ( x > 0.0F ) && ( alpha < -( N + 1.0F ) ) ) ) {
+    else if ( alpha >= 0.0F ) {
         y = poly_laguerre_recursion( n, alpha, x );
     }
     else {
-- 
2.43.0


From ebc3d06bf0b4f74145475f8745284b360bb982ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 085/100] fix: ffmath::assoc_legendre recurrence divides only
 its second term

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f112d15..0f7fdb1 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1577,7 +1577,7 @@ float ffmath::assoc_legendre( size_t n,
                 for ( size_t i = ( m + 2U ) ; i <= n ; ++i ) {
                     const float j = static_cast<float>( i );
                     /*cstat +CERT-FLP36-C*/
-                    p_lm = ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m/( j - M ) );
+                    p_lm = ( ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m ) )/( j - M );
                     p_lm2m = p_lm1m;
                     p_lm1m = p_lm;
                 }
-- 
2.43.0


From b0f5ac996c3e83fa41e44abe7427816c6cd7f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 086/100] fix: ffmath::assoc_legendre of order zero accepts
 arguments outside [-1, 1]

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 0f7fdb1..24a2945 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1542,7 +1542,7 @@ float ffmath::assoc_legendre( size_t n,
     if ( m > n ) {
         y = 0.0F;
     }
-    else if ( ffmath::isNan( x ) ) {
+    else if ( ffmath::isNan( x ) || ( absolute( x ) > 1.0F ) ) {
         y = limits::nan();
     }
     else if ( 0U == m ) {
-- 
2.43.0


From 6b06d75ae95eef0e9a9e2a12a0e7d22c69e482e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 087/100] fix: ffmath::expint has the wrong sign between -1 and
 0

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 24a2945..ffd3d21 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2129,7 +2129,7 @@ static float expint_Ei( float x )
     if ( x < 0.0F ) {
         x = -x;
         if ( x < 1.0F ) {
-            y = expint_E1_series( x );
+            y = -expint_E1_series( x );
         }
         else if ( x < 100.F ) {
             y = -expint_En_cont_frac( 1, x );
-- 
2.43.0


From 0c593e62eabcbafca101562d0ea54666bdd9ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 088/100] fix: ffmath::expint drops the asymptotic series for
 large arguments

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index ffd3d21..f585901 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2060,7 +2060,7 @@ static float expint_Ei_asymp( float x )
     for ( size_t i = 1U; i < maxIter; ++i ) {
         const float prev = term;
         /*cstat -CERT-FLP36-C*/
-        term *= -static_cast<float>( i )/x;
+        term *= static_cast<float>( i )/x;
         /*cstat +CERT-FLP36-C*/
         if ( ( term < limits::epsilon() ) || ( term >= prev ) ) {
             break;
-- 
2.43.0


From 9550b3bc01ecebbe340a76ce6b23799229fb7aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 089/100] fix: ffmath::cyl_bessel_i and cyl_bessel_k start
 Temme's fraction from a stale value for x >= 2

---
 src/ffmath.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f585901..4b22721 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2736,6 +2736,9 @@ static void bessel_ik( float nu,
             k_nu1 = sum1*xi2;
         }
         else {
+            b = 2.0F*( 1.0F + x );
+            d = 1.0F/b;
+            h = d;
             float del_h = d;
             float q1 = 0.0F;
             float q2 = 1.0F;
@@ -2744,9 +2747,6 @@ static void bessel_ik( float nu,
             float a = -a1;
             float s = 1.0F + ( q*del_h );
 
-            b = 2.0F*( 1.0F + x );
-            d = 1.0F/b;
-            h = d;
             c = a1;
             for ( int i = 2 ; i <= max_iter; ++i) {
                 /*cstat -CERT-FLP36-C*/
-- 
2.43.0


From a1c3a8318cd15730dcd4549eeb3f7995965efc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 090/100] fix: ffmath::tgamma of -0 and of negative integers

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 4b22721..5bfe6a0 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1019,7 +1019,7 @@ float ffmath::tgamma( float x )
         result = limits::nan();
     }
     else if ( classification::FFP_ZERO == fClass ) {
-        result = limits::infinity(); /* a huge value */
+        result = ffmath::copysign( limits::infinity(), x ); /* a huge value */
     }
     else if ( classification::FFP_INFINITE == fClass ) {
         result = ( x > 0.0F ) ? limits::infinity() : limits::nan();
@@ -1046,7 +1046,7 @@ float ffmath::tgamma( float x )
                 y += 1.0F;
             }
             else {
-                result = limits::nan();
+                result = limits::infinity();
                 goto EXIT_TGAMMA;
             }
         }
-- 
2.43.0


From f21bb811df8746b6981d6ec06e164dde828a124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 091/100] fix: ffmath::factorial overflows between 34 and 35

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 5bfe6a0..bddb624 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1340,7 +1340,7 @@ float ffmath::factorial( float x )
                                  };
     float y;
 
-    if ( x > 34.0F ) {
+    if ( x >= 35.0F ) {
         y = limits::infinity();
     }
     else if ( x >= 0.0F ) {
-- 
2.43.0


From 9d78c18f972ee4733560a522c4a65c8dbb9c1823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:25 +0000
Subject: [PATCH 092/100] fix: ffmath::expint(inf) is NaN

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index bddb624..5e21a99 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2068,7 +2068,7 @@ static float expint_Ei_asymp( float x )
         sum += term;
     }
 
-    return ffmath::exp( x )*sum/x;
+    return ffmath::isInf( x ) ? x : ( ffmath::exp( x )*sum/x );
 }
 /*============================================================================*/
 static float expint_En_cont_frac( size_t n,
-- 
2.43.0


From d42d2ace89b575a90146c4d6a42d1ec4fa30b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:25 +0000
Subject: [PATCH 093/100] fix: ffmath::riemann_zeta overflows for s below -34

---
 src/ffmath.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 5e21a99..eecca61 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2331,9 +2331,8 @@ float ffmath::riemann_zeta( float s )
     }
     else if ( s < -19.0F ) {
         z = riemann_zeta_product( 1.0F - s );
-        z *= ffmath::pow( 2.0F*ffmath::FFP_PI, s )*
-             ffmath::sin( ffmath::FFP_PI_2*s )*
-             ffmath::exp( ffmath::lgamma( 1.0F - s ) )/
+        z *= ffmath::sin( ffmath::FFP_PI_2*s )*
+             ffmath::exp( ffmath::lgamma( 1.0F - s ) + ( 2.0F*s*ffmath::FFP_LN_SQRT_2PI ) )/
              ffmath::FFP_PI;
     }
     else if ( s < 20.0F ) {
-- 
2.43.0


From 11788d8bd5f99fa31196da9a8ec755eba80263de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:25 +0000
Subject: [PATCH 094/100] fix: ffmath::cyl_neumann and sph_neumann are NaN when
 the result overflows

---
 src/ffmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index eecca61..60cfea7 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2555,6 +2555,9 @@ static void bessel_jn( float nu,
             /*cstat -CERT-FLP36-C*/
             const float n_nu_temp = ( mu + static_cast<float>( i ) )*xi2*n_nu1 - n_mu;
             /*cstat +CERT-FLP36-C*/
+            if ( ffmath::isInf( n_mu ) ) {
+                break;
+            }
             n_mu = n_nu1;
             n_nu1 = n_nu_temp;
         }
-- 
2.43.0


From 012ed470078fbe96d8297d32114201b6542e3085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:25 +0000
Subject: [PATCH 095/100] fix: ffmath::sph_bessel is NaN or infinite for small
 arguments

---
 src/ffmath.cpp | 78 ++++++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 35 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 60cfea7..46d887d 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2566,6 +2566,41 @@ static void bessel_jn( float nu,
     }
 }
 /*============================================================================*/
+static float cyl_bessel_ij_series( float nu,
+                                   float x,
+                                   float sgn,
+                                   size_t max_iter )
+{
+    float y;
+
+    if ( ffmath::isEqual( 0.0F, x ) ) {
+        y = ( ffmath::isEqual( 0.0F, nu ) ) ? 1.0F : 0.0F;
+    }
+    else {
+        const float x2 = 0.5F*x;
+        float fact = nu*ffmath::log( x2 );
+        float Jn = 1.0F;
+        float term = 1.0F;
+        const float xx4 = sgn*x2*x2;
+
+        fact -= ffmath::lgamma( nu + 1.0F );
+        fact = ffmath::exp( fact );
+        for ( size_t i = 1U ; i < max_iter; ++i ) {
+            /*cstat -CERT-FLP36-C*/
+            const float j = static_cast<float>( i );
+            /*cstat +CERT-FLP36-C*/
+            term *= xx4/( j*( nu + j ) );
+            Jn += term;
+            if ( absolute( term/Jn ) < limits::epsilon() ) {
+                break;
+            }
+        }
+        y = fact*Jn;
+    }
+
+    return y;
+}
+/*============================================================================*/
 static void sph_bessel_jn( size_t n,
                            float x,
                            float& j_n,
@@ -2592,6 +2627,9 @@ float ffmath::sph_bessel( size_t n,
                           float x )
 {
     float y;
+    /*cstat -CERT-FLP36-C*/
+    const float nu = static_cast<float>( n ) + 0.5F;
+    /*cstat +CERT-FLP36-C*/
 
     if ( ( x < 0.0F ) || ffmath::isNan( x ) ) {
         y = limits::nan();
@@ -2599,6 +2637,11 @@ float ffmath::sph_bessel( size_t n,
     else if ( ffmath::isEqual( 0.0F, x ) ) {
         y = ( 0U == n ) ? 1.0F : 0.0F;
     }
+    else if ( ( x*x ) < ( 10.0F*( nu + 1.0F ) ) ) {
+        constexpr float sqrtpi2 = 1.25331413731550012080617761967005208134651184F;
+
+        y = sqrtpi2*ffmath::rSqrt( x )*cyl_bessel_ij_series( nu, x, -1.0F, 200U );
+    }
     else {
         float j_n, n_n, jp_n, np_n;
 
@@ -2790,41 +2833,6 @@ static void bessel_ik( float nu,
     }
 }
 /*============================================================================*/
-static float cyl_bessel_ij_series( float nu,
-                                   float x,
-                                   float sgn,
-                                   size_t max_iter )
-{
-    float y;
-
-    if ( ffmath::isEqual( 0.0F, x ) ) {
-        y = ( ffmath::isEqual( 0.0F, nu ) ) ? 1.0F : 0.0F;
-    }
-    else {
-        const float x2 = 0.5F*x;
-        float fact = nu*ffmath::log( x2 );
-        float Jn = 1.0F;
-        float term = 1.0F;
-        const float xx4 = sgn*x2*x2;
-
-        fact -= ffmath::lgamma( nu + 1.0F );
-        fact = ffmath::exp( fact );
-        for ( size_t i = 1U ; i < max_iter; ++i ) {
-            /*cstat -CERT-FLP36-C*/
-            const float j = static_cast<float>( i );
-            /*cstat +CERT-FLP36-C*/
-            term *= xx4/( j*( nu + j ) );
-            Jn += term;
-            if ( absolute( term/Jn ) < limits::epsilon() ) {
-                break;
-            }
-        }
-        y = fact*Jn;
-    }
-
-    return y;
-}
-/*============================================================================*/
 float ffmath::cyl_bessel_i( float nu,
                             float x )
 {
-- 
2.43.0


From 592db05b3e8fff2b5f624602290eaf151b23284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:25 +0000
Subject: [PATCH 096/100] fix: ffmath::lgamma is infinite for tiny negative
 arguments

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 46d887d..8592599 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1303,7 +1303,7 @@ float ffmath::lgamma( float x )
                     float a;
 
                     a = ffmath::sin( FFP_PI*isItAnInt );
-                    result = ffmath::log( FFP_PI/absolute( a*x ) ) - lgamma_positive( -x );
+                    result = FFP_LN_PI - ffmath::log( absolute( a ) ) - ffmath::log( -x ) - lgamma_positive( -x );
                 }
             }
         }
-- 
2.43.0


From 6164c6fec036e38706bbd97ea835bcab785a1224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 097/100] fix: ffmath::atan2 takes a subnormal abscissa for
 zero

atan2( 0, 1e-44 ) was pi/2 and atan2( 1e-40, 1e-38 ) too.
---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 8592599..e04b9df 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -544,7 +544,7 @@ float ffmath::atan2( float y,
     float t, f;
 
     t = ffmath::FFP_PI - ( ( y < 0.0F ) ? ffmath::FFP_2PI : 0.0F );
-    f = ( absolute( x ) <= limits::Min() ) ? 1.0F : 0.0F;
+    f = ( absolute( x ) > 0.0F ) ? 0.0F : 1.0F;
     y = ffmath::atan( y/( x + f ) ) + ( ( x < 0.0F ) ? t : 0.0F );
 
     return y + ( f*( ( 0.5F*t ) - y ) );
-- 
2.43.0


From 527ae88453519959dbcbc8dba50217b5b0f6deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 098/100] fix: the observable form of continuousSystem can not
 be selected

LTISYS_EVAL_MODEL_CONTROLLABLE was defined whenever one of both macros was
missing, so LTISYS_EVAL_MODEL_OBSERVABLE never had any effect.
---
 src/include/ltisys.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/ltisys.hpp b/src/include/ltisys.hpp
index d4451e7..7f3d76b 100644
--- a/src/include/ltisys.hpp
+++ b/src/include/ltisys.hpp
@@ -26,7 +26,7 @@ namespace qlibs {
 
     /** @cond **/
     /*only for continuousSystem*/
-    #if !defined( LTISYS_EVAL_MODEL_CONTROLLABLE ) || !defined( LTISYS_EVAL_MODEL_OBSERVABLE )
+    #if !defined( LTISYS_EVAL_MODEL_CONTROLLABLE ) && !defined( LTISYS_EVAL_MODEL_OBSERVABLE )
         #define LTISYS_EVAL_MODEL_CONTROLLABLE
     #endif
     /** @endcond **/
-- 
2.43.0


From 58971ba29b3644cd03cd83fb4dc9c7ff4dd9665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:54 +0000
Subject: [PATCH 099/100] fix: algorithm::replace follows the value to be
 replaced when it is an element of the array

---
 src/include/algorithm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index a9be7bd..90c7c88 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -326,8 +326,10 @@ namespace qlibs {
                              const size_t first = 0U,
                              const size_t last = n - 1U ) noexcept
         {
+            const T value = old_value; /*it may be an element of the array*/
+
             for ( size_t i = first; i <= last; ++i ) {
-                if ( old_value == array[ i ] ) {
+                if ( value == array[ i ] ) {
                     array[ i ] = new_value;
                 }
             }
-- 
2.43.0


From 8f16aa56b37ed5bb7e844e06b9453c226cd0fa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:54 +0000
Subject: [PATCH 100/100] fix: auto-tuning without end expires after 2^32 steps

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index dbb2abe..ab54411 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -357,7 +357,7 @@ bool pidAutoTuning::step( const real_t u,
     /*cstat +MISRAC++2008-5-14-1*/
         k = gain + ( mu*( k - gain ) );
         tao = timeConstant + ( mu*( tao - timeConstant ) );
-        if ( ( 0UL == --it ) && ( pidAutoTuning::UNDEFINED != it ) ) {
+        if ( ( pidAutoTuning::UNDEFINED != it ) && ( 0UL == --it ) ) {
             ready = true;
         }
     }
-- 
2.43.0

