From f8224e6902207148cbb1b9cdf3e1ba3a098b18ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 01/85] fix: dates: 31st December of leap years and dates
 before 1970 were rendered wrong

---
 src/utils.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 16663f1..3f00892 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -600,7 +600,7 @@ char *UnixDate2Str(int32_t value,char *dst)
     int year = 2000;
 
     int y400 = value / YEARS400_TO_DAYS;
-    if (value < 0) y400--; // 1999 -> 1600..1999
+    if (value % YEARS400_TO_DAYS < 0) y400--; // 1999 -> 1600..1999
     value -= y400 * YEARS400_TO_DAYS;
 
 
@@ -644,13 +644,13 @@ char *UnixDate2Str(int32_t value,char *dst)
     int month,day;
     if (is_leap)
     {
-        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 365);
+        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 366);
         month = DAY2MONTH_LEAP[value];
         day = 1+value - LEAP_MONTH_OFFSET[month-1];
     }
     else
     {
-        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 366);
+        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 365);
         month = DAY2MONTH[value];
         day = 1+value - MONTH_OFFSET[month-1];
     }
@@ -661,9 +661,16 @@ char *UnixDate2Str(int32_t value,char *dst)
 
 char *UnixTime642Str(int64_t value,char *dst)
 {
-    char *p = UnixDate2Str(value / (1000 * 60*60*24),dst);
-    p += strlen(p);
+    int64_t day = value / (1000 * 60*60*24);
     value %= 1000 * 60*60*24;
+    if (value < 0) // before epoch: the day starts earlier
+    {
+        day--;
+        value += 1000 * 60*60*24;
+    }
+    char *p = UnixDate2Str(day,dst);
+    if (p == nullptr) return nullptr;
+    p += strlen(p);
     sprintf(p," %02d:%02d:%02d.%03d",
         (int)((value / (1000 * 60 * 60)) % 24),
         (int)((value / (1000 * 60)) % 60),
-- 
2.43.0


From 2ecf869ad91777c5b23b6473ca9b11b5f2b30ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 02/85] fix: dates: years before 1970 scanned to wrong day,
 impossible days of month accepted

---
 src/utils.cpp | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3f00892..18c47c3 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -424,6 +424,22 @@ const int LEAP_MONTH_OFFSET[12] = {
 
 const int MAX_DAY = 0xffffffff/(24*60*60);
 
+static bool IsLeapYear(int year)
+{
+    return (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
+}
+
+static int DaysInMonth(int year,int month)
+{
+    const int *offset = IsLeapYear(year) ? LEAP_MONTH_OFFSET : MONTH_OFFSET;
+    return month == 12 ? 31 : offset[month] - offset[month-1];
+}
+
+static int FloorDiv(int value,int divisor)
+{
+    return value / divisor - (value % divisor < 0 ? 1 : 0);
+}
+
 bool ScanUnixTime(const char *&p,uint32_t &value)
 {
     value = 0;
@@ -443,14 +459,19 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
         fprintf(stderr,"Unsupported year %d! Unix epoch starts at 1970.",year);
         return false;
     }
+    if (year > 2106)
+    {
+        fprintf(stderr,"Date %s exceed 32 bit unsigned int! Please use different type.",beg);
+        return false;
+    }
+    if (day < 1 || day > DaysInMonth(year,month)) return false; // I dont know days out of range
 
     value = (year - 1970) * 365;
     value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
     value -= (year - 1900 - 1) / 100;
     value += (year - 1600 - 1) / 400;
 
-    bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
-    if (is_leap_year)   
+    if (IsLeapYear(year))
         value += LEAP_MONTH_OFFSET[month-1];
     else
         value += MONTH_OFFSET[month-1];
@@ -547,13 +568,14 @@ bool ScanUnixDate(const char *&p,int32_t &value)
         return false;
     }
 
+    if (day < 1 || day > DaysInMonth(year,month)) return false; // I dont know days out of range
+
     value = (year - 1970) * 365;
-    value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-    value -= (year - 1900 - 1) / 100;
-    value += (year - 1600 - 1) / 400;
+    value += FloorDiv(year - 1968 - 1,4);   // -1 don't add 1 day for this year now
+    value -= FloorDiv(year - 1900 - 1,100);
+    value += FloorDiv(year - 1600 - 1,400);
 
-    bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
-    if (is_leap_year)   
+    if (IsLeapYear(year))
         value += LEAP_MONTH_OFFSET[month-1];
     else
         value += MONTH_OFFSET[month-1];
-- 
2.43.0


From d2237295959d6c69a03accdb933653d08012c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 03/85] fix: times: impossible times of day accepted and last
 day of 32 bit range wrapped around

---
 src/utils.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 18c47c3..a4c06b7 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -490,16 +490,27 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     p++;
     
     if (!ScanInt(p,hour)) return false;    
-    value += hour*3600;
-    if (*p == '\0') return true; // end of string
-    if (*(p++) != ':') return false;
+    if (hour < 0 || hour > 23) return false;
+    uint64_t time64 = (uint64_t)value + hour*3600;
+    if (*p != '\0') // end of string
+    {
+        if (*(p++) != ':') return false;
 
-    if (!ScanInt(p,minute)) return false;    
-    value += minute*60;
-    if (*(p++) != ':') return false;
+        if (!ScanInt(p,minute)) return false;    
+        if (minute < 0 || minute > 59) return false;
+        time64 += minute*60;
+        if (*(p++) != ':') return false;
 
-    if (!ScanInt(p,second)) return false;    
-    value += second;
+        if (!ScanInt(p,second)) return false;    
+        if (second < 0 || second > 60) return false; // 60 is a leap second
+        time64 += second;
+    }
+    if (time64 > 0xffffffff)
+    {
+        fprintf(stderr,"Time %s exceed 32 bit unsigned int! Please use different type.",beg);
+        return false;
+    }
+    value = time64;
     return true;
 }
 
-- 
2.43.0


From a954bc6311c598df0294a2c025468827ad28eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 04/85] fix: times: time zone shift wrapped around in 32 bits,
 scanning passed end of text

---
 src/utils.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index a4c06b7..70ff05e 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -522,11 +522,12 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
     const char *start = p;
 
     if (!ScanUnixTime(p,tm32)) return false;
-    if (*(p++) != '.') 
+    if (*p != '.') 
     {
         value = (int64_t)tm32*1000; // whole seconds only
         return true;  // OK
     }
+    p++;
 
     if (*p < '0' || *p > '9') return false;
     int v000 = 100 * (*(p++) - '0');
@@ -535,11 +536,12 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
     if (*p < '0' || *p > '9') return false;
     v000 += (*(p++) - '0');
 
+    int64_t zone = 0; // seconds
     if (start[10] == 'T') // zone expected
     {
     // skip next decimals
         while (*p >= '0' && *p <= '9') p++;
-        if (*p == 'Z') ;// UTC
+        if (*p == 'Z') p++; // UTC
         else if (*p == '+' || *p == '-')
         {
             char sign = *(p++);
@@ -547,15 +549,15 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
             if (ScanInt(p,hour) && *(p++) == ':' && ScanInt(p,min))
             {
                 if (sign == '+')
-                    tm32 -= hour*3600 + min*60; 
+                    zone = hour*3600 + min*60;
                 else
-                    tm32 += hour*3600 + min*60; 
+                    zone = -(hour*3600 + min*60);
             }
         }
             
     }
 
-    value = v000 + (int64_t)tm32 * 1000;
+    value = v000 + ((int64_t)tm32 - zone) * 1000;
 
     return true;
 }
-- 
2.43.0


From 38dd450653cd6f37d2be5b23cb0ea8946520fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 05/85] fix: times: impossible time zones accepted, overflow in
 extreme dates

---
 src/utils.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 70ff05e..36d86c4 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -546,13 +546,14 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
         {
             char sign = *(p++);
             int hour,min;
-            if (ScanInt(p,hour) && *(p++) == ':' && ScanInt(p,min))
-            {
-                if (sign == '+')
-                    zone = hour*3600 + min*60;
-                else
-                    zone = -(hour*3600 + min*60);
-            }
+            if (!ScanInt(p,hour) || hour < 0 || hour > 23) return false;
+            if (*p != ':') return false;
+            p++;
+            if (!ScanInt(p,min) || min < 0 || min > 59) return false;
+            if (sign == '+')
+                zone = hour*3600 + min*60;
+            else
+                zone = -(hour*3600 + min*60);
         }
             
     }
@@ -629,9 +630,9 @@ const uint8_t DAY2MONTH_LEAP[366] = {
 11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,
 12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12};
 
-char *UnixDate2Str(int32_t value,char *dst)
+char *UnixDate2Str(int32_t day_number,char *dst)
 {
-    value -= 10957; // 1.1.1970 base to 1.1.2000
+    int64_t value = (int64_t)day_number - 10957; // 1.1.1970 base to 1.1.2000
     int year = 2000;
 
     int y400 = value / YEARS400_TO_DAYS;
-- 
2.43.0


From 113812e25bec44cd68afe33d63af6f9b2cb34c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 06/85] fix: scanners: numbers out of range of the type
 silently wrapped around

---
 src/utils.cpp | 134 +++++++++++++++++---------------------------------
 1 file changed, 46 insertions(+), 88 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 36d86c4..b2d8c3d 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -277,6 +277,34 @@ bool Scan(const char *&p,const char *beg)
     return true;
 }
 
+// Reads decimal digits - false when the number doesn't fit into type of value
+template<typename P,typename T> static bool ScanDigits(P &p,bool neg,T &value)
+{
+    T x = 0;
+    while (isdigit(*p))
+    {
+        T digit = *(p++) - '0';
+        if (__builtin_mul_overflow(x,(T)10,&x)) return false;
+        if (neg ? __builtin_sub_overflow(x,digit,&x) : __builtin_add_overflow(x,digit,&x)) return false;
+    }
+    value = x;
+    return true;
+}
+
+// Reads hexadecimal digits - false when the number doesn't fit into 64 bits
+template<typename P> static bool ScanHexDigits(P &p,uint64_t &value)
+{
+    uint64_t x = 0;
+    while (isxdigit(*p))
+    {
+        if (x >> 60) return false;
+        x = (x << 4) + HEX2VALUE(*p);
+        p++;
+    }
+    value = x;
+    return true;
+}
+
 bool ScanInt(const char *&p,int &value)
 {
     while (isspace(*p)) p++;
@@ -287,11 +315,10 @@ bool ScanInt(const char *&p,int &value)
     if (!isdigit(*p1)) return false;
 
     int x = 0;
-    while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+    if (!ScanDigits(p1,neg,x)) return false; // out of range
     
     p = p1;
-    value = (neg ? -x : x);
+    value = x;
     return true;
 }
 
@@ -325,11 +352,10 @@ bool ScanInt64(const char *&p,int64_t &value)
     if (!isdigit(*p1)) return false;
 
     int64_t x = 0;
-    while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+    if (!ScanDigits(p1,neg,x)) return false; // out of range
     
     p = p1;
-    value = (neg ? -x : x);
+    value = x;
     return true;
 }
 
@@ -343,23 +369,13 @@ bool ScanUInt64(const char *&p,uint64_t &value)
     {
         p1 += 2;
         if (!isxdigit(*p1)) return false;
-        while (*p1 != '\0')
-        {
-            if (*p1 >= '0' && *p1 <= '9')
-                x = (x << 4) + (*(p1++) - '0');
-            else if (*p1 >= 'A' && *p1 <= 'F')
-                x = (x << 4) + (*(p1++) - 'A' + 10);
-            else if (*p1 >= 'a' && *p1 <= 'f')
-                x = (x << 4) + (*(p1++) - 'a' + 10);
-            else break;
-        }
+        if (!ScanHexDigits(p1,x)) return false; // out of range
     }
     else
     {
         if (!isdigit(*p1)) return false;
 
-        while (isdigit(*p1))
-            x = x *10 + (*(p1++) - '0');
+        if (!ScanDigits(p1,false,x)) return false; // out of range
     }
     
     p = p1;
@@ -374,16 +390,7 @@ bool ScanUInt64Hex(const char *&p,uint64_t &value)
     uint64_t x = 0;
     const char *p1 = p;
     if (!isxdigit(*p1)) return false;
-    while (*p1 != '\0')
-    {
-        if (*p1 >= '0' && *p1 <= '9')
-            x = (x << 4) + (*(p1++) - '0');
-        else if (*p1 >= 'A' && *p1 <= 'F')
-            x = (x << 4) + (*(p1++) - 'A' + 10);
-        else if (*p1 >= 'a' && *p1 <= 'f')
-            x = (x << 4) + (*(p1++) - 'a' + 10);
-        else break;
-    }
+    if (!ScanHexDigits(p1,x)) return false; // out of range
 
     p = p1;
     value = x;
@@ -934,11 +941,10 @@ bool ScanIntW(char *&p,int &value)
     if (!isdigit(*p1)) return false;
 
     int x = 0;
-    while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+    if (!ScanDigits(p1,neg,x)) return false; // out of range
     
     p = p1;
-    value = (neg ? -x : x);
+    value = x;
     return true;
 }
 
@@ -952,11 +958,10 @@ bool ScanInt64W(char *&p,int64_t &value)
     if (!isdigit(*p1)) return false;
 
     int64_t x = 0;
-    while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+    if (!ScanDigits(p1,neg,x)) return false; // out of range
     
     p = p1;
-    value = (neg ? -x : x);
+    value = x;
     return true;
 }
 
@@ -970,23 +975,13 @@ bool ScanUInt64W(char *&p,uint64_t &value)
     {
         p1 += 2;
         if (!isxdigit(*p1)) return false;
-        while (*p1 != '\0')
-        {
-            if (*p1 >= '0' && *p1 <= '9')
-                x = (x << 4) + (*(p1++) - '0');
-            else if (*p1 >= 'A' && *p1 <= 'F')
-                x = (x << 4) + (*(p1++) - 'A' + 10);
-            else if (*p1 >= 'a' && *p1 <= 'f')
-                x = (x << 4) + (*(p1++) - 'a' + 10);
-            else break;
-        }
+        if (!ScanHexDigits(p1,x)) return false; // out of range
     }
     else
     {
         if (!isdigit(*p1)) return false;
 
-        while (isdigit(*p1))
-            x = x *10 + (*(p1++) - '0');
+        if (!ScanDigits(p1,false,x)) return false; // out of range
     }
     
     p = p1;
@@ -1058,56 +1053,19 @@ int  GetInt(const char *p)
         p += 2;
         if (!isxdigit(*p)) return INT_NULL_VALUE;
         
-        while (true)
-        {
-            switch(*p)
-            {
-                case '0':
-                case '1':
-                case '2':
-                case '3':
-                case '4':
-                case '5':
-                case '6':
-                case '7':
-                case '8':
-                case '9':
-                    x = (x << 4) + *p - '0';
-                    break;
-                case 'A':
-                case 'B':
-                case 'C':
-                case 'D':
-                case 'E':
-                case 'F':
-                    x = (x << 4) + *p - 'A' + 10;
-                    break;
-                case 'a':
-                case 'b':
-                case 'c':
-                case 'd':
-                case 'e':
-                case 'f':
-                    x = (x << 4) + *p - 'a' + 10;
-                    break;
-                default:
-                    return neg ? -x : x;
-            
-                     
-            }
-            p++;
-        }
+        uint64_t u = 0;
+        if (!ScanHexDigits(p,u) || u > 0xffffffff) return INT_NULL_VALUE; // out of range
+        x = (int)(uint32_t)(neg ? 0 - u : u);
     }
     else
     {
 
         if (!isdigit(*p)) return INT_NULL_VALUE;
 
-        while (isdigit(*p))
-            x = x *10 + (*(p++) - '0');
+        if (!ScanDigits(p,neg,x)) return INT_NULL_VALUE; // out of range
     }
     
-    return neg ? -x : x;
+    return x;
     
 }
 
-- 
2.43.0


From ac6811669d6f92277525ea679258d7f9e2e1b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 07/85] fix: types: decimal numbers lost sign between -1 and 0
 and overflowed silently

---
 src/bin_xml_types.cpp | 103 ++++++++++++++++++++++++++++++------------
 1 file changed, 74 insertions(+), 29 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 66550ea..1639628 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -469,15 +469,18 @@ bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *lim
     return true; // OK
 }
 
-static int32_t str2dec(const char *src,int decimals)
+static bool str2dec(const char *src,int decimals,int32_t &result)
+// returns false when value doesn't fit
 {
     bool neg = (*src == '-');
     if (neg) src++;
 
-    int32_t value = 0;
+    const int64_t limit = neg ? 0x80000000LL : 0x7fffffffLL;
+    int64_t value = 0;
     while (*src >= '0' && *src <= '9')
     {
         value = value * 10 + (*src) - '0';
+        if (value > limit) return false;
         src++;
     }
     if (*src == '.') // decimal point
@@ -486,6 +489,7 @@ static int32_t str2dec(const char *src,int decimals)
         while (*src >= '0' && *src <= '9' && decimals > 0)
         {
             value = value * 10 + (*src) - '0';
+            if (value > limit) return false;
             src++;
             decimals--;
         }
@@ -493,11 +497,12 @@ static int32_t str2dec(const char *src,int decimals)
     while (decimals > 0)
     {
         value *= 10;
+        if (value > limit) return false;
         decimals--;
     }
 
-    if (neg) return -value;
-    return value;
+    result = neg ? -value : value;
+    return true;
 }
 
 bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
@@ -517,30 +522,70 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             return true;
         
         case XBT_INT32_DECI:
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,1);
-            *_wp += sizeof(int32_t);
-            return true;
+            {
+                int32_t v;
+                if (!str2dec(src,1,v))
+                {
+                    fprintf(stderr,"%s: Value '%s' is out of range!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
+                    return false;
+                }
+                AA(*_wp);
+                *reinterpret_cast<int32_t*>(*_wp) = v;
+                *_wp += sizeof(int32_t);
+                return true;
+            }
         case XBT_INT32_CENTI:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,2);
-            *_wp += sizeof(int32_t);
-            return true;
+            {
+                int32_t v;
+                if (!str2dec(src,2,v))
+                {
+                    fprintf(stderr,"%s: Value '%s' is out of range!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
+                    return false;
+                }
+                AA(*_wp);
+                *reinterpret_cast<int32_t*>(*_wp) = v;
+                *_wp += sizeof(int32_t);
+                return true;
+            }
         case XBT_INT32_MILI:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,3);
-            *_wp += sizeof(int32_t);
-            return true;
+            {
+                int32_t v;
+                if (!str2dec(src,3,v))
+                {
+                    fprintf(stderr,"%s: Value '%s' is out of range!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
+                    return false;
+                }
+                AA(*_wp);
+                *reinterpret_cast<int32_t*>(*_wp) = v;
+                *_wp += sizeof(int32_t);
+                return true;
+            }
         case XBT_INT32_MICRO:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,6);
-            *_wp += sizeof(int32_t);
-            return true;
+            {
+                int32_t v;
+                if (!str2dec(src,6,v))
+                {
+                    fprintf(stderr,"%s: Value '%s' is out of range!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
+                    return false;
+                }
+                AA(*_wp);
+                *reinterpret_cast<int32_t*>(*_wp) = v;
+                *_wp += sizeof(int32_t);
+                return true;
+            }
         case XBT_INT32_NANO:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,9);
-            *_wp += sizeof(int32_t);
-            return true;
+            {
+                int32_t v;
+                if (!str2dec(src,9,v))
+                {
+                    fprintf(stderr,"%s: Value '%s' is out of range!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
+                    return false;
+                }
+                AA(*_wp);
+                *reinterpret_cast<int32_t*>(*_wp) = v;
+                *_wp += sizeof(int32_t);
+                return true;
+            }
         case XBT_IPv4:     
             {
                 AA(*_wp);
@@ -854,7 +899,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%d",V / 10,ABS(V) % 10);
+                snprintf(dst,dst_size,"%s%d.%d",V < 0 ? "-" : "",ABS(V / 10),ABS(V % 10));
                 return strlen(dst);
             }
         case XBT_INT32_CENTI:     
@@ -863,7 +908,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%02d",V / 100,ABS(V) % 100);
+                snprintf(dst,dst_size,"%s%d.%02d",V < 0 ? "-" : "",ABS(V / 100),ABS(V % 100));
                 return strlen(dst);
             }
         case XBT_INT32_MILI:     
@@ -872,7 +917,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%03d",V / 1000,ABS(V) % 1000);
+                snprintf(dst,dst_size,"%s%d.%03d",V < 0 ? "-" : "",ABS(V / 1000),ABS(V % 1000));
                 return strlen(dst);
             }
         case XBT_INT32_MICRO:     
@@ -881,7 +926,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%06d",V / 1000000,ABS(V) % 1000000);
+                snprintf(dst,dst_size,"%s%d.%06d",V < 0 ? "-" : "",ABS(V / 1000000),ABS(V % 1000000));
                 return strlen(dst);
             }
         case XBT_INT32_NANO:     
@@ -890,7 +935,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%09d",V / 1000000000,ABS(V) % 1000000000);
+                snprintf(dst,dst_size,"%s%d.%09d",V < 0 ? "-" : "",ABS(V / 1000000000),ABS(V % 1000000000));
                 return strlen(dst);
             }
 
-- 
2.43.0


From 56c8702b47ec72f81cf615e87ce9e0316ea557e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 08/85] fix: types: INT64 minimum and -576460752303423488
 rendered wrong, text was not terminated

---
 src/bin_xml_types.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 1639628..6411c0d 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -967,24 +967,18 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                     strcpy(dst,"0");
                     return 1;
                 }
-                if (value == -576460752303423488) 
-                {
-                    strcpy(dst,"9223372036854775808");
-                    return strlen(dst);
-                }
-                //if (value == -0x8000000000000000) return "9223372036854775808";
                 char *d = dst+dst_size;
                 *(--d) = '\0';
                 bool neg = (value < 0);
-                if (neg) value = -value;
-                while (value > 0)
+                uint64_t abs_value = neg ? 0 - (uint64_t)value : value; // -value cannot represent minimum
+                while (abs_value > 0)
                 {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
+                    *(--d) = '0'+(abs_value % 10);
+                    abs_value /= 10;
                 }
                 if (neg) *(--d) = '-';
                 int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
+                memmove(dst,d,len+1);
                 return len;
             }
         case XBT_UINT64:
@@ -1006,7 +1000,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                     value /= 10;
                 }
                 int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
+                memmove(dst,d,len+1);
                 return len;
             }
         case XBT_FLOAT:
-- 
2.43.0


From 0233c39114dd032bd4f309df11430a56c7eb4812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 09/85] fix: types: UNIX_TIME64_MSEC was stored unaligned and
 rendered wrong before 10:00 and before 1970

---
 src/bin_xml_types.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 6411c0d..ee5ec44 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -667,7 +667,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             }
         case XBT_UNIX_TIME64_MSEC:
             {
-                AA(*_wp);
+                AA8(*_wp);
                 int64_t tm0;
                 if (!ScanUnixTime64msec(src,tm0))
                 {
@@ -1040,12 +1040,14 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 //                LOG("TIME64(%p) --> %08X:%08X",data, *reinterpret_cast<const uint32_t*>(data), *(reinterpret_cast<const uint32_t*>(data)+1));
 
                 int64_t value = *reinterpret_cast<const int64_t*>(data);
-                time_t tm0 = (time_t)(value/1000);
+                int msec = (int)(value % 1000);
+                if (msec < 0) msec += 1000; // before epoch
+                time_t tm0 = (time_t)(value/1000 - (value % 1000 < 0 ? 1 : 0));
                 struct tm tm1;
                 memset(dst,0,dst_size);
 
-                gmtime_r(&tm0,&tm1);
-                snprintf(dst,dst_size,"%04d-%02d-%02d %2d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
+                if (gmtime_r(&tm0,&tm1) == nullptr) return 0; // year is out of range
+                snprintf(dst,dst_size,"%04lld-%02d-%02d %02d:%02d:%02d.%03d",1900LL+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,msec);
                 return strlen(dst);
             }
         case XBT_BLOB:
-- 
2.43.0


From 2a0478c945935a30f5e67876ce70807a3016a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 10/85] fix: types: GUID rendered without dashes and without
 end

---
 src/bin_xml_types.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index ee5ec44..1500636 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1096,16 +1096,10 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
             }
         case XBT_GUID:
             {
-                if (offset >= 16+4) return 0;
-                char guid_str[32+4+1];
-                GUID2Str(data,guid_str);
-                
-                Hex2Str(data+offset,16-offset,dst);
-                int ret = 2*(16-offset);
+                if (offset >= 16) return 0;
+                GUID2Str(data,dst); // 8-4-4-4-12
                 offset = 16;
-                // 8-4-4-4-12
-                // TODO: here should be some - inserted on positions"5f5b7603-6d55-45e6-8c60-07aa5fc6c945">
-                return ret;
+                return strlen(dst);
             }
         case XBT_SHA1:
             {
-- 
2.43.0


From 1ebb9ce866d8584ec818d1c9ced2b4a47d385bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 11/85] fix: types: each line of HEX data was rendered with
 extra NUL character

---
 src/bin_xml_types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 1500636..2189a51 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1084,7 +1084,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 src  += offset;
 
                 if (size > 16) size = 16; // limited output
-                ASSERT_NO_RET_N1(2126,(int)size*16+2 <= dst_size);
+                ASSERT_NO_RET_N1(2126,(int)size*2+2 <= dst_size);
 
                 Hex2Str(src,size,dst);
 
@@ -1092,7 +1092,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 dst[hex_len]   = '\n';
                 dst[hex_len+1] = '\0';
                 offset += size;
-                return hex_len+2;
+                return hex_len+1;
             }
         case XBT_GUID:
             {
-- 
2.43.0


From 2a18c25c0eabbf01154e1461593ed9e3bcbf35cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 12/85] fix: types: announced size of SHA1 was 24 bytes while
 only 20 are stored

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 2189a51..6aab793 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -376,7 +376,7 @@ int XBT_Size2(XML_Binary_Type type,int size)
             return 16;
         case XBT_SHA1:
             ASSERT_NO_RET_N1(1075,size == 0 || size == 20);
-            return 24;
+            return 20;
         case XBT_UNIX_TIME:
             //printf("XBT_UNIX_TIME: size = %d\n",size);
             ASSERT_NO_RET_N1(1076,size == 0 || size == 4);
-- 
2.43.0


From d7f042852650e680b3c2299556b25a6305a9b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 13/85] fix: types: IPv4 addresses were ordered by memory image

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 6aab793..f304e26 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -277,6 +277,7 @@ int XBT_Compare(XML_Binary_Type A_type,const void *A_value,int A_size,XML_Binary
 
             case XBT_UNIX_DATE: RETURN_COMPARE_OF_TYPE(int32_t);
             case XBT_UINT32:    RETURN_COMPARE_OF_TYPE(uint32_t);
+            case XBT_IPv4:      RETURN_COMPARE_OF_TYPE(uint32_t);
             case XBT_UNIX_TIME: RETURN_COMPARE_OF_TYPE(uint32_t);
             case XBT_UNIX_TIME64_MSEC: RETURN_COMPARE_OF_TYPE(int64_t); 
             case XBT_INT64:     RETURN_COMPARE_OF_TYPE(int64_t);
@@ -291,7 +292,6 @@ int XBT_Compare(XML_Binary_Type A_type,const void *A_value,int A_size,XML_Binary
             case XBT_HEX:
             case XBT_GUID:
             case XBT_SHA1:
-            case XBT_IPv4:
             case XBT_IPv6:
                                 if (A_size == B_size) // the same size
                                     return memcmp(A_value,B_value,A_size);
-- 
2.43.0


From c0fbc5a0710837ef83171462184c660b5d9ca29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 14/85] fix: types: UNIX_DATE was not recognised as 4 byte type

---
 include/binary_xml/bin_xml_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 7e82969..cca9b38 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -64,7 +64,7 @@ enum XML_Binary_Type
 #endif
 };
 
-#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32)
+#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_UNIX_DATE || (type) == XBT_IPv4 || (type) == XBT_UINT32)
 #define XBT_IS_8(type) ((type) == XBT_INT64 || (type) == XBT_DOUBLE || ((type) == XBT_UNIX_TIME64_MSEC) || ((type) == XBT_UINT64))
 
 #define XBT_IS_INT32(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO)
-- 
2.43.0


From f9f6b7bac7678f56d6f34dd04327c447aa88bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 15/85] fix: types: HEX text got trailing newline and divided
 lines could not be read back

---
 src/bin_xml_types.cpp | 7 +++++--
 src/utils.cpp         | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index f304e26..8643cfb 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -828,8 +828,8 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
 
                     src += line_size;
                     d += line_size*2;
-                    *(d++) = '\n';
                     size -= line_size;
+                    if (size > 0) *(d++) = '\n'; // separates lines
                 }
                 *(d++) = '\0';
                 return dst;
@@ -1080,6 +1080,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                     return 0;
                 }
             // use offset - only here
+                const int total_size = (int)size;
                 size -= offset;
                 src  += offset;
 
@@ -1089,9 +1090,11 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 Hex2Str(src,size,dst);
 
                 int hex_len = strlen(dst);
+                offset += size;
+                if (offset >= total_size) return hex_len; // last line
+
                 dst[hex_len]   = '\n';
                 dst[hex_len+1] = '\0';
-                offset += size;
                 return hex_len+1;
             }
         case XBT_GUID:
diff --git a/src/utils.cpp b/src/utils.cpp
index b2d8c3d..c67fcfd 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -815,7 +815,7 @@ int ScanHex(const char *&p,uint8_t *dst,int dst_size)
     for(int count = 0;count < dst_size;count++)
     {
         if (p[0] == '-') p++;
-        else if (p[0] == ' ') p++;
+        else if (p[0] == ' ' || p[0] == '\n') p++; // longer data are divided into lines
 
         int value = 0;
         if (p[0] >= '0' && p[0] <= '9')
-- 
2.43.0


From 0f8d1a1dabdcbfc697a611ae9b39dbb5a3a3d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 16/85] fix: types: UINT32 and DOUBLE are recognised but could
 not be stored or rendered, FLOAT lost precision

---
 src/bin_xml_types.cpp | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 8643cfb..02a991c 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -649,9 +649,27 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             }
         case XBT_FLOAT:
             AA(*_wp);
-            *reinterpret_cast<float*>(*_wp) = atof(src);
+            *reinterpret_cast<float*>(*_wp) = strtof(src,nullptr);
             *_wp += sizeof(float);
             return true;
+        case XBT_DOUBLE:
+            AA8(*_wp);
+            *reinterpret_cast<double*>(*_wp) = strtod(src,nullptr);
+            *_wp += sizeof(double);
+            return true;
+        case XBT_UINT32:
+            {
+                uint64_t v;
+                if (!ScanUInt64(src,v) || v > 0xffffffff)
+                {
+                    fprintf(stderr,"%s: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
+                    return false;
+                }
+                AA(*_wp);
+                *reinterpret_cast<uint32_t*>(*_wp) = (uint32_t)v;
+                *_wp += sizeof(uint32_t);
+                return true;
+            }
         case XBT_UNIX_TIME:
             {
                 AA(*_wp);
@@ -776,9 +794,11 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
         case XBT_INT64:
         case XBT_UINT64:
         case XBT_FLOAT:
+        case XBT_DOUBLE:
         case XBT_UNIX_TIME:
         case XBT_UNIX_DATE:
         case XBT_UNIX_TIME64_MSEC:
+        case XBT_IPv4:
         case XBT_SHA1:
             {
                 
@@ -1007,7 +1027,23 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
             if (offset > 0) return 0;
             offset += sizeof(float);
 
-            snprintf(dst,dst_size,"%f",*reinterpret_cast<const float*>(data));
+            {
+                float value = *reinterpret_cast<const float*>(data);
+                snprintf(dst,dst_size,"%f",value);
+                if (strtof(dst,nullptr) != value) snprintf(dst,dst_size,"%.9g",value); // precision would be lost
+            }
+            return strlen(dst);
+        case XBT_DOUBLE:
+            if (offset > 0) return 0;
+            offset += sizeof(double);
+            {
+                double value = *reinterpret_cast<const double*>(data);
+                for(int precision = 15;precision <= 17;precision++) // the shortest which keeps value
+                {
+                    snprintf(dst,dst_size,"%.*g",precision,value);
+                    if (strtod(dst,nullptr) == value) break;
+                }
+            }
             return strlen(dst);
         case XBT_UNIX_TIME:
             {
@@ -1113,7 +1149,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 return ret;
             }
         default:
-            assert(false);
+            LOG_ERROR("Unsupported type %d",type);
             return 0;
     }
 }
-- 
2.43.0


From 64fe42a8ec530379e7a5ab0310e37bdded93252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 17/85] fix: types: XBT_Copy advanced only by announced size of
 string and read behind end of BLOB_STRING

---
 src/bin_xml_types.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 02a991c..ac8c011 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -439,6 +439,8 @@ int XBT_Align(XML_Binary_Type type)
 bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *limit)
 {
     int value_size = XBT_Size2(type,size);
+    if (type == XBT_STRING) value_size = strlen(src)+1; // whole string is copied
+    else if (type == XBT_BLOB_STRING) value_size = sizeof(int32_t)+size; // allocated size is already rounded
     int align_size = XBT_Align(type);
     if (limit - *_wp < value_size + align_size) 
     {
-- 
2.43.0


From af84419367260446b705309dd0ab847f70486dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 18/85] fix: types: XBT_FromString ignored limit of target
 buffer

---
 src/bin_xml_types.cpp | 26 ++++++++++++++++++++++++--
 src/utils.cpp         |  1 +
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index ac8c011..90c7d24 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -509,6 +509,23 @@ static bool str2dec(const char *src,int decimals,int32_t &result)
 
 bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
 {
+    if (src == nullptr) src = "";
+
+    if (type != XBT_NULL)
+    {
+        int size = XBT_SizeFromString(src,type);
+        if (size < 0) return false;
+
+        int value_size = XBT_Size2(type,size);
+        int align = XBT_Align(type);
+        if (align > 0) value_size += (align - ((intptr_t)*_wp & (align-1))) & (align-1); // padding
+        if (limit - *_wp < value_size)
+        {
+            fprintf(stderr,"%s: Value '%s' does not fit into %d bytes!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src,(int)(limit - *_wp));
+            return false;
+        }
+    }
+
     switch (type)
     {
         case XBT_NULL:
@@ -748,12 +765,17 @@ int XBT_SizeFromString(const char *src,XML_Binary_Type type)
         case XBT_UINT64: return 8;
 
         case XBT_BLOB_STRING:
-            return XBT_GetBLOB_STRING_Size(strlen(src));
+            return strlen(src); // it will be rounded up in XBT_Size2()
         case XBT_BLOB:
             ASSERT_NO_RET_N1(2057,NOT_IMPLEMENTED);
             break;
         case XBT_HEX:
-            return (strlen(src)+1) >> 1;
+            {
+                uint8_t byte;
+                int size = 0;
+                while (ScanHex(src,&byte,1) == 1) size++;
+                return size;
+            }
         default:
             fprintf(stderr,"%s: Size detection of '%s' to binary representation is not implemented!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
 //            assert(false);
diff --git a/src/utils.cpp b/src/utils.cpp
index c67fcfd..87216c1 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -810,6 +810,7 @@ bool AdvEqual(const char *mask,const char *value)
 
 int ScanHex(const char *&p,uint8_t *dst,int dst_size)
 {
+    if (dst_size <= 0) return 0;
     memset(dst,0,dst_size);
     if (*p == '\0') return false;
     for(int count = 0;count < dst_size;count++)
-- 
2.43.0


From 4afafd6fa752a696d5a6c956f458c50bb79f2bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 19/85] fix: types: empty BLOB_STRING was read behind its end

---
 src/bin_xml_types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 90c7d24..56d1091 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -835,7 +835,7 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
         case XBT_BLOB_STRING:
             {
                 uint32_t size = *reinterpret_cast<const uint32_t*>(data);   
-                if (reinterpret_cast<const char *>(data)[4+size-1] == '\0')
+                if (size > 0 && reinterpret_cast<const char *>(data)[4+size-1] == '\0')
                     return reinterpret_cast<const char *>(data)+4;
                 else
                     return "";
@@ -922,7 +922,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
         case XBT_BLOB_STRING: 
             {
                 const char *p = reinterpret_cast<const char *>(data) + sizeof(uint32_t);
-                int len = strlen(p);
+                int len = strnlen(p,*reinterpret_cast<const uint32_t*>(data));
                 len -= offset;
                 p += offset;
                 if (len <= 0) return 0; // finished
-- 
2.43.0


From a9161186be1d4123af52822e3754b6e3a2c684f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 20/85] fix: base64: text which just fits into buffer was not
 terminated

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 87216c1..89573b9 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1238,7 +1238,7 @@ char *base64_encode(const unsigned char *src,int src_size,char *dst,int dst_size
     }
     for(int c = (dst-dst_base) & 3;c > 0 && dst_size > 0 && c < 4;c++,dst_size--)
             *(dst++) = '=';
-    if (dst_size > 1)
+    if (dst_size > 0)
         *dst = 0;
     return dst_base;
 }
-- 
2.43.0


From 49ab8fed175a9345536fff9e179c4f951dc48898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 21/85] fix: types: text which is not whole a value of type was
 silently converted to different value

---
 src/bin_xml_types.cpp | 69 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 13 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 56d1091..4497984 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -471,12 +471,14 @@ bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *lim
     return true; // OK
 }
 
-static bool str2dec(const char *src,int decimals,int32_t &result)
+static bool str2dec(const char *&src,int decimals,int32_t &result)
 // returns false when value doesn't fit
 {
     bool neg = (*src == '-');
     if (neg) src++;
 
+    if (*src < '0' || *src > '9') return false;
+
     const int64_t limit = neg ? 0x80000000LL : 0x7fffffffLL;
     int64_t value = 0;
     while (*src >= '0' && *src <= '9')
@@ -507,9 +509,12 @@ static bool str2dec(const char *src,int decimals,int32_t &result)
     return true;
 }
 
+static bool s_FromString(const char *&src,XML_Binary_Type type,char **_wp,char *limit);
+
 bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
 {
     if (src == nullptr) src = "";
+    const char *value = src;
 
     if (type != XBT_NULL)
     {
@@ -526,6 +531,24 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         }
     }
 
+    char *wp = *_wp;
+    if (!s_FromString(src,type,&wp,limit)) return false;
+    if (type != XBT_STRING && type != XBT_NULL) 
+    {
+        SkipSpaces(src);
+        if (*src != '\0') // rest of text would be lost
+        {
+            fprintf(stderr,"%s: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],value);
+            return false;
+        }
+    }
+    *_wp = wp;
+    return true;
+}
+
+static bool s_FromString(const char *&src,XML_Binary_Type type,char **_wp,char *limit)
+// moves src after the last converted character
+{
     switch (type)
     {
         case XBT_NULL:
@@ -535,10 +558,18 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             break;
             
         case XBT_INT32:
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = atoi(src);
-            *_wp += sizeof(int32_t);
-            return true;
+            {
+                int v;
+                if (!ScanInt(src,v))
+                {
+                    fprintf(stderr,"%s: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
+                    return false;
+                }
+                AA(*_wp);
+                *reinterpret_cast<int32_t*>(*_wp) = v;
+                *_wp += sizeof(int32_t);
+                return true;
+            }
         
         case XBT_INT32_DECI:
             {
@@ -667,15 +698,27 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
                 return true;
             }
         case XBT_FLOAT:
-            AA(*_wp);
-            *reinterpret_cast<float*>(*_wp) = strtof(src,nullptr);
-            *_wp += sizeof(float);
-            return true;
+            {
+                char *end = nullptr;
+                float v = strtof(src,&end);
+                if (end == src) return false; // no number
+                src = end;
+                AA(*_wp);
+                *reinterpret_cast<float*>(*_wp) = v;
+                *_wp += sizeof(float);
+                return true;
+            }
         case XBT_DOUBLE:
-            AA8(*_wp);
-            *reinterpret_cast<double*>(*_wp) = strtod(src,nullptr);
-            *_wp += sizeof(double);
-            return true;
+            {
+                char *end = nullptr;
+                double v = strtod(src,&end);
+                if (end == src) return false; // no number
+                src = end;
+                AA8(*_wp);
+                *reinterpret_cast<double*>(*_wp) = v;
+                *_wp += sizeof(double);
+                return true;
+            }
         case XBT_UINT32:
             {
                 uint64_t v;
-- 
2.43.0


From 93ca24be3ba2489e9ffc4cb293f2190e18308343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 22/85] fix: types: texts similar to number, date or address
 were detected as type which changes them

---
 src/bin_xml_types.cpp | 44 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 4497984..4426468 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -46,7 +46,51 @@ const char *XML_BINARY_TYPE_NAMES[XBT_LAST+1] = {
     XBT_ARRAY   = 127   // when used this bitmask, data consist of many values of base type
 #endif
 
+static XML_Binary_Type s_GuessType(const char *value,bool verbose);
+static bool s_FromString(const char *&src,XML_Binary_Type type,char **_wp,char *limit);
+
+static bool s_KeepsText(const char *value,XML_Binary_Type type)
+// true when text is still the same after conversion to type and back
+{
+    if (type == XBT_NULL || type == XBT_STRING) return true;
+
+    int value_len = strlen(value);
+    int buffer_size = value_len + 64;
+    char *buffer = new char[buffer_size];
+    char *wp = buffer;
+    const char *src = value;
+    bool ok = s_FromString(src,type,&wp,buffer+buffer_size) && *src == '\0';
+    if (ok)
+    {
+        int pos = 0;
+        int offset = 0;
+        for(;ok;)
+        {
+            char chunk[1024+1];
+            int len = XBT_ToStringChunk(type,buffer,offset,chunk,sizeof(chunk));
+            if (len <= 0) break;
+            // ISO 8601 separators are variant of the same time
+            if (type == XBT_UNIX_TIME64_MSEC && value_len == len+1 && value[10] == 'T' && value[len] == 'Z')
+            {
+                chunk[10] = 'T';
+                chunk[len++] = 'Z';
+            }
+            ok = len <= value_len - pos && memcmp(chunk,value+pos,len) == 0;
+            pos += len;
+        }
+        ok = ok && pos == value_len;
+    }
+    delete [] buffer;
+    return ok;
+}
+
 XML_Binary_Type XBT_Detect(const char *value,bool verbose)
+{
+    XML_Binary_Type type = s_GuessType(value,verbose);
+    return s_KeepsText(value,type) ? type : XBT_STRING; // never lose a character
+}
+
+static XML_Binary_Type s_GuessType(const char *value,bool verbose)
 {
     if (value == nullptr) return XBT_NULL;
     if (*value == '\0') return XBT_NULL;
-- 
2.43.0


From c51382e2f0633e6b6c0ba9f44f5da686c85881d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 23/85] fix: dates: scanning of incomplete date moved position
 behind end of text

---
 src/utils.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 89573b9..478b042 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -455,10 +455,12 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     const char *beg = p;
 
     if (!ScanInt(p,year)) return false;    
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,month)) return false;    
     if (month < 1 || month > 12) return false; // I dont know months out of range
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,day)) return false;    
 
     if (year < 1970) 
@@ -501,12 +503,14 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     uint64_t time64 = (uint64_t)value + hour*3600;
     if (*p != '\0') // end of string
     {
-        if (*(p++) != ':') return false;
+        if (*p != ':') return false;
+        p++;
 
         if (!ScanInt(p,minute)) return false;    
         if (minute < 0 || minute > 59) return false;
         time64 += minute*60;
-        if (*(p++) != ':') return false;
+        if (*p != ':') return false;
+        p++;
 
         if (!ScanInt(p,second)) return false;    
         if (second < 0 || second > 60) return false; // 60 is a leap second
@@ -577,10 +581,12 @@ bool ScanUnixDate(const char *&p,int32_t &value)
     //const char *beg = p;
 
     if (!ScanInt(p,year)) return false;    
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,month)) return false;    
     if (month < 1 || month > 12) return false; // I dont know months out of range
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,day)) return false;    
 
     if (year < -365749 || year > 369689) 
-- 
2.43.0


From 1eaa22b2b0dd5e0a6e00fd7ab197a5859414ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 24/85] fix: utils: extension of result name was cut from dot
 in name of directory, long names overflowed

---
 src/utils.cpp | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 478b042..ac2e40b 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -216,36 +216,34 @@ char *AllocFilenameChangeExt(const char *filename,const char *extension,const ch
     while (filename[0] == '.' && filename[1] == '/') 
         filename += 2;
 
-    char filepath[PATH_MAX] = "";
-    filepath[PATH_MAX-1] = '\0'; // terminator
+    // removing / root reference
+    if (target_dir != nullptr && filename[0] == '/') 
+        filename++; 
 
-    if (target_dir != nullptr)
+    size_t dir_len = (target_dir != nullptr ? strlen(target_dir) + 1 : 0); // with separator
+    size_t ext_len = (extension != nullptr ? strlen(extension) : 0);
+
+    size_t len = strlen(filename);
+    if (extension != nullptr)
     {
-        // removing / root reference
-        if (filename[0] == '/') 
-            filename++; 
-
-        STRCPY(filepath,target_dir);
-        int len = strlen(filepath);
-        filepath[len++] = '/';
-        strncpy(filepath+len,filename,PATH_MAX-len-1);
+        const char *base_name = strrchr(filename,'/');
+        base_name = (base_name != nullptr ? base_name + 1 : filename);
+
+        const char *dot = strrchr(base_name,'.'); // dots in names of directories don't start extension
+        if (dot != nullptr) 
+            len = dot - filename;
     }
-    else 
-        STRCPY(filepath,filename);
 
-    if (extension == nullptr)
+    char *new_name = new char[dir_len+len+ext_len+1];
+    if (target_dir != nullptr)
     {
-        char *new_name = new char[strlen(filepath)+1];
-        strcpy(new_name,filepath);
-        return new_name;
+        memcpy(new_name,target_dir,dir_len-1);
+        new_name[dir_len-1] = '/';
     }
-    const char *dot = strrchr(filepath,'.');
-    int len = (dot != nullptr ? dot - filepath : strlen(filepath));
-    int ext_len = strlen(extension);
-
-    char *new_name = new char[len+ext_len+1];
-    strncpy(new_name,filepath,len);
-    strcpy(new_name+len,extension);
+    memcpy(new_name+dir_len,filename,len);
+    if (extension != nullptr)
+        memcpy(new_name+dir_len+len,extension,ext_len);
+    new_name[dir_len+len+ext_len] = '\0';
 
     return new_name;
 }
-- 
2.43.0


From c6ad0047c734a91bdf65b608847b215c38461cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 25/85] fix: utils: Int64ToStr of minimal value returned only
 minus

---
 src/utils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index ac2e40b..0707256 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1193,17 +1193,17 @@ const char *Int64ToStr(int64_t value,char40_t buffer)
     if (buffer == nullptr) return nullptr;
 
     bool neg = (value < 0);
-    if (neg) value = -value;
+    uint64_t abs_value = (neg ? 0 - static_cast<uint64_t>(value) : value);
 
     char *p = buffer + sizeof(char40_t);
     *(--p) = '\0'; // terminating symbol;
-    if (value == 0)
+    if (abs_value == 0)
         *(--p) = '0'; // zero
     else 
-        while (value > 0)
+        while (abs_value > 0)
         {
-            *(--p) = '0' + (value % 10);
-            value /= 10;
+            *(--p) = '0' + (abs_value % 10);
+            abs_value /= 10;
         }
 
     if (neg) 
-- 
2.43.0


From 37e08703fab0f1767addaec223446b1bf12409e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 26/85] fix: utils: wildcard * did not match empty rest of text
 and swallowed following ?

---
 src/utils.cpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 0707256..1710ff1 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -784,32 +784,30 @@ bool Go(const char *&p,char separator)
 bool AdvEqual(const char *mask,const char *value)
 {
     if (mask == nullptr) return true;
-    while (*mask != '\0' && *value != '\0')
+
+    const char *star = nullptr;         // the last *
+    const char *star_value = nullptr;   // the first character not covered by this *
+    while (*value != '\0')
     {
-        if (*mask == *value || *mask == '?')
+        if (*mask == '*')
+        {
+            star = mask++;
+            star_value = value;
+        }
+        else if (*mask != '\0' && (*mask == *value || *mask == '?'))
         {
             mask++;
             value++;
         }
-        else if (*mask == '*' && *(mask+1) == '\0') // asterix at the end
-            return true; // ok
-        else if (*mask == '*')
+        else if (star != nullptr) // the last * will cover one more character
         {
-            mask++;
-            while (*mask == '*' || *mask == '?') mask++;
-
-            // I need to find the first character after *
-
-            while (*value != '\0')
-            {
-                if (*mask == *value && AdvEqual(mask+1,value+1)) return true; // found
-                value++;
-            }
+            mask = star + 1;
+            value = ++star_value;
         }
         else return false; // no match
-
     }
-    return *mask == '\0' && *value == '\0'; // both strings has the same end
+    while (*mask == '*') mask++; // * could be empty
+    return *mask == '\0'; // both strings has the same end
 }
 
 int ScanHex(const char *&p,uint8_t *dst,int dst_size)
-- 
2.43.0


From 090b6632b6d62e902ec15eb7ef143fbad5756c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 27/85] fix: scanners: IPv4 address accepted spaces and
 negative zeroes inside

---
 src/utils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 1710ff1..0bf319c 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -325,13 +325,15 @@ bool ScanIPv4(const char *&p,uint32_t &value)
 {
     int A,B,C,D; // A.B.C.D
     const char *p2 = p;
-    if (ScanInt(p2,A) && A >= 0 && A < 256 &&
+    while (isspace(*p2)) p2++;
+    // no signs or spaces inside of address
+    if (isdigit(*p2) && ScanInt(p2,A) && A < 256 &&
         *p2++ == '.' &&
-        ScanInt(p2,B) &&  B >= 0 && B < 256 &&
+        isdigit(*p2) && ScanInt(p2,B) && B < 256 &&
         *p2++ == '.' &&
-        ScanInt(p2,C) &&  C >= 0 && C < 256 &&
+        isdigit(*p2) && ScanInt(p2,C) && C < 256 &&
         *p2++ == '.' &&
-        ScanInt(p2,D) && D >= 0 && D < 256)
+        isdigit(*p2) && ScanInt(p2,D) && D < 256)
     {
         value = (A << 24) | (B << 16) | (C << 8) | D;
         p = p2;
-- 
2.43.0


From ec070bd4f087df280f6a726a7e19542b6425ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 28/85] fix: utils: StrWrite without limit lost source
 position, ScanStr with zero separator left the text

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 0bf319c..2a60731 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -757,7 +757,7 @@ bool ScanStr(const char *&p,char separator,char *value,unsigned value_size)
             }
             p++;
         }
-        if (*p == separator) p++; // sezere oddelovac!
+        if (*p != '\0') p++; // sezere oddelovac!
     }
     *d = '\0';
     return *value != '\0'; // string is not empty
@@ -1100,7 +1100,7 @@ bool StrWrite(char *&dest,const char *dest_limit,const char *&src,const char *sr
     if (src_size > dst_space) return false; // nic neudělám a končím
     strncpy(dest,src,src_size);
     dest += src_size;
-    src = src_limit;
+    src += src_size;
     return true;
 }
 
-- 
2.43.0


From 930ec4faad24c70c22c4e5e771c2ff7038b17878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 29/85] fix: sorting: qsort_r2 moved tested item while dividing
 and did not sort

---
 src/missings.cpp | 52 ++++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index fadb263..56abe61 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -18,31 +18,45 @@ void qsort_r2(void *base, int nmemb, int size,
                   int (*compar)(const void *, const void *, void *),
                   void *arg)
 {
-    if (nmemb < 2) return;
-
     char *temp = (char*)alloca(size);
-#define BASE(idx) ((char*)base + (size)*(idx))
-
-    int test = nmemb / 2;
+    char *test = (char*)alloca(size); // copy - tested item can be moved while dividing
+#define BASE(idx) ((char*)base + (size_t)(size)*(idx))
 
-    int left = 0;
-    int right = nmemb - 1;
-    for(;;)
+    while (nmemb >= 2)
     {
-        while (compar(BASE(left),BASE(test),arg) < 0 && left < right) left++;
-        while (compar(BASE(right),BASE(test),arg) > 0 && left < right) right--;
+        memcpy(test,BASE(nmemb / 2),size);
 
-        if (left >= right) break;
+        int left = 0;
+        int right = nmemb - 1;
+        while (left <= right)
+        {
+            while (compar(BASE(left),test,arg) < 0) left++;
+            while (compar(BASE(right),test,arg) > 0) right--;
 
-        memcpy(temp,BASE(left),size);
-        memcpy(BASE(left),BASE(right),size);
-        memcpy(BASE(right),temp,size);
-        left++;
-        right--;
-    }
+            if (left > right) break;
+
+            memcpy(temp,BASE(left),size);
+            memmove(BASE(left),BASE(right),size);
+            memcpy(BASE(right),temp,size);
+            left++;
+            right--;
+        }
+        // 0..right are not bigger, left..nmemb-1 are not smaller, anything between is equal to test
 
-    qsort_r2(base, left,                size,compar,arg);
-    qsort_r2(BASE(left), nmemb - left,  size,compar,arg);
+        int left_count = right + 1;
+        int right_count = nmemb - left;
+        if (left_count < right_count) // recursion only into smaller part
+        {
+            qsort_r2(base,left_count,size,compar,arg);
+            base = BASE(left);
+            nmemb = right_count;
+        }
+        else
+        {
+            qsort_r2(BASE(left),right_count,size,compar,arg);
+            nmemb = left_count;
+        }
+    }
 #undef BASE
 }
 
-- 
2.43.0


From ebfac991859cc8476e69287ef9b550c1d8c22f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 30/85] fix: sorting: mergesort_r2 overflowed stack with bigger
 arrays

---
 src/missings.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index 56abe61..279e389 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -64,10 +64,18 @@ void mergesort_r2(void *base, int nmemb, int size,
                   int (*compar)(const void *, const void *, void *),
                   void *arg)
 {
+    if (nmemb < 2) return;
+
     void *src = base;
-    void *dst = alloca(size*nmemb);
-#define SRC(idx) ((char*)src + (size)*(idx))
-#define DST(idx) ((char*)dst + (size)*(idx))
+    void *buffer = malloc((size_t)size*nmemb); // too big for stack
+    if (buffer == nullptr)
+    {
+        ERRNO_SHOW(1969,"malloc","mergesort_r2");
+        abort(); // not sorted data cannot be returned as sorted
+    }
+    void *dst = buffer;
+#define SRC(idx) ((char*)src + (size_t)(size)*(idx))
+#define DST(idx) ((char*)dst + (size_t)(size)*(idx))
     for(int merge_len = 1;merge_len < nmemb;merge_len <<= 1)
     {
         int D = 0;
@@ -120,7 +128,8 @@ void mergesort_r2(void *base, int nmemb, int size,
 #undef SRC
 #undef DST
     if (dst == base)
-        memcpy(base,src,size * nmemb);
+        memcpy(base,src,(size_t)size * nmemb);
+    free(buffer);
 }
 
 
-- 
2.43.0


From a298f3cafcf5fad7fa3878b7cdb74e386d444895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 31/85] fix: file_getsha1 ended after the first incomplete read

---
 src/missings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index 279e389..aaefde5 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -178,7 +178,7 @@ bool file_getsha1(const char *filename,unsigned char *hash)
             return false;
         }
         blk_SHA1_Update(&ctx,buffer,size);
-        if (size < (int)sizeof(buffer))
+        if (size == 0)
             break; // finished
     }
     blk_SHA1_Final(hash,&ctx);    
-- 
2.43.0


From 196749ef5b62d764f2899f1ef9eba3c240c7f2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 32/85] fix: creator: size of buffer was guessed from size of
 source and overflowed, gaps were not initialized

---
 include/binary_xml/bin_xml_creator.h |  3 +
 src/bin_xml_creator.cpp              | 88 ++++++++++++++++++++++++----
 2 files changed, 80 insertions(+), 11 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 4b24635..a02f756 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -90,6 +90,8 @@ protected:
 
     char        *data;
     int32_t     data_size_allocated;
+    int64_t     data_size_needed;   // measured in 1st pass - upper limit of size of all nodes
+    bool        write_failed;       // some node cannot be written
 
 // 1st pass to enumerate paramcount
     int     total_node_count;
@@ -113,6 +115,7 @@ public:
         bool MakeSymbolTable();
     bool Append(void *element);
 protected:
+        bool AllocData(int64_t size);
         static void FirstPassEvent(void *element,void *userdata,int deep);
 
         static void FirstPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 429ccaf..ff8094b 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -15,7 +15,7 @@
 #include <stdlib.h> // qsort_r
 #include <stdio.h>
 #include <stdarg.h> // va_start ...
-#include <limits.h> // PATH_MAX
+#include <limits.h> // PATH_MAX, INT_MAX
 #include <iostream>
 
 #include <binary_xml/bin_write_plugin.h>
@@ -270,7 +270,9 @@ Bin_xml_creator::Bin_xml_creator(const char *src,const char *dst,Bin_xml_creator
     this->dst_file_size = -1;
     
     this->data = nullptr;
-
+    this->data_size_allocated = 0;
+    this->data_size_needed = 0;
+    this->write_failed = false;
 
 // 2nd pass to fill tables
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
@@ -293,8 +295,11 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,const char *dst,Bin_xml_cre
     else
         this->dst = AllocFilenameChangeExt(dst,".xbw");
     this->dst_file = -1; 
+    this->dst_file_size = -1;
     this->data = nullptr;
-    this->dst_file = -1; 
+    this->data_size_allocated = 0;
+    this->data_size_needed = 0;
+    this->write_failed = false;
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
@@ -315,8 +320,11 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,Bin_xml_creator_target targ
     else
         this->dst = AllocFilenameChangeExt(dst,".xbw");
     this->dst_file = -1; 
+    this->dst_file_size = -1;
     this->data = nullptr;
-    this->dst_file = -1; 
+    this->data_size_allocated = 0;
+    this->data_size_needed = 0;
+    this->write_failed = false;
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
@@ -353,6 +361,33 @@ Bin_xml_creator::~Bin_xml_creator()
     }
     if (dst != nullptr)
         delete [] dst; 
+    free(data);
+    data = nullptr;
+}
+
+bool Bin_xml_creator::AllocData(int64_t size)
+// buffer is always empty, no byte of target file can come from previous content of memory
+{
+    if (size > INT_MAX)
+    {
+        std::cerr << "error: result is too big (" << size << "B)\n";
+        return false;
+    }
+    if (data != nullptr && size <= data_size_allocated)
+    {
+        memset(data,0,data_size_allocated);
+        return true;
+    }
+    free(data);
+    data_size_allocated = 0;
+    data = reinterpret_cast<char *>(calloc(size,1));
+    if (data == nullptr)
+    {
+        std::cerr << "error: " << strerror(errno) << " while calloc(" << size << ")\n";
+        return false;
+    }
+    data_size_allocated = size;
+    return true;
 }
 
 //-------------------------------------------------------------------------------------------------
@@ -375,6 +410,8 @@ bool Bin_xml_creator::Make_xb()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->data_size_needed = 0;
+    this->write_failed = false;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(1184,root != nullptr);
@@ -394,15 +431,14 @@ bool Bin_xml_creator::Make_xb()
 
     // 3. allocate and fill--------------------------
     src->updateFileSize();
-    this->data_size_allocated = 1024 + src->getFileSize()*4;
-    this->data = reinterpret_cast<char *>(malloc(data_size_allocated)); // some reserve
+    int64_t size = 1024 + strlen(src->getFilename()) + this->data_size_needed;
+    for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
+        for(int i = 0;i < symbol_count[t];i++)
+            size += sizeof(relative_ptr_t) + sizeof(XML_Binary_Type_Stored) + strlen(symbol_table[t][i]) + 1;
 
+    if (!AllocData(size)) return false;
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
-    if (this->data == nullptr)
-    {
-        std::cerr << "error: " << strerror(errno) << " while malloc(" << src->getFileSize()*2 << ")\n";
-        return false;
-    }
+
     this->dst_file_size = FillData();
 #ifndef NDEBUG
     // 4. write intermediate uncompressed results to file------
@@ -516,6 +552,11 @@ bool Bin_xml_creator::Append(void *element)
     }
     int file_align = file_info.st_size & 0xf; // use alignemenet like length of file
 
+// buffer must be big enough for this element
+    this->data_size_needed = 64;
+    src->ForAllChildrenRecursively(FirstPassEvent,element,(void*)this,0);
+    if (!AllocData(this->data_size_needed)) return false;
+
     char *wp = data+file_align;
     AA(wp);
     this->WriteNode(&wp,element);
@@ -531,11 +572,32 @@ bool Bin_xml_creator::Append(void *element)
     return true;
 }
 
+// Upper limits of space for stored values - with type and alignment
+static int64_t s_TextSpace(const char *text)
+{
+    return 48 + (text != nullptr ? 2 * (int64_t)strlen(text) : 0);
+}
+
+static int64_t s_BinSpace(XML_Binary_Type type,const char *value)
+{
+    if (value == nullptr) return 48;
+    if (type == XBT_STRING) return s_TextSpace(value);
+    if (!XBT_IS_VARSIZE(type)) return 48;
+    AA(value);
+    return 48 + 2 * (int64_t)*reinterpret_cast<const int32_t*>(value);
+}
+
 void Bin_xml_creator::FirstPassEvent(void *element,void *userdata,int deep)
 {
     assert(element != nullptr);
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_node_count++;
+
+    XML_Binary_Type type = XBT_UNKNOWN;
+    int size = 0;
+    const char *value = _this->src->getNodeBinValue(element,type,size);
+    _this->data_size_needed += sizeof(XML_Item) + sizeof(relative_ptr_t);
+    _this->data_size_needed += (type != XBT_UNKNOWN ? s_BinSpace(type,value) : s_TextSpace(_this->src->getNodeValue(element)));
     if (!_this->src->ForAllBinParams(FirstPassBinParamEvent,element,userdata)) // this is faster!
         _this->src->ForAllParams(FirstPassParamEvent,element,userdata);
     
@@ -545,12 +607,14 @@ void Bin_xml_creator::FirstPassBinParamEvent(const char *param_name,int param_id
 {
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_param_count++;
+    _this->data_size_needed += sizeof(XML_Param_Description) + s_BinSpace(type,param_value);
 }
 
 void Bin_xml_creator::FirstPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata)
 {
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_param_count++;
+    _this->data_size_needed += sizeof(XML_Param_Description) + s_TextSpace(param_value);
 }
 
 void Bin_xml_creator::SecondPassEvent(void *element,void *userdata,int deep)
@@ -596,6 +660,8 @@ bool Bin_xml_creator::Make_xbw()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->data_size_needed = 0;
+    this->write_failed = false;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(2052,root != nullptr);
-- 
2.43.0


From 65fb057cf431294d83eff9b078655d26787116eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 33/85] fix: creator: symbol tables were allocated by malloc
 and released by delete []

---
 src/bin_xml_creator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index ff8094b..ca00675 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -486,8 +486,8 @@ bool Bin_xml_creator::CopySymbolTable()
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
         int count = /*this->symbol_count[t] = */src->getSymbolCount((SymbolTableTypes)t);
-        this->symbol_table[t] = reinterpret_cast<const char **>(malloc(sizeof(char*)*count));
-        this->symbol_table_types[t] = reinterpret_cast<XML_Binary_Type_Stored*>(malloc(sizeof(XML_Binary_Type_Stored)*count));
+        this->symbol_table[t] = new const char *[count];
+        this->symbol_table_types[t] = new XML_Binary_Type_Stored[count];
         for(int i = 0;i < count;i++)
         {
             XML_Binary_Type type;
@@ -521,10 +521,10 @@ bool Bin_xml_creator::MakeSymbolTable()
 
         int size1 = sizeof(char*)*symbol_count[t];
         int size2 = sizeof(XML_Binary_Type_Stored)*symbol_count[t];
-        this->symbol_table[t] = reinterpret_cast<const char **>(malloc(size1));
+        this->symbol_table[t] = new const char *[symbol_count[t]];
         memcpy(this->symbol_table[t],table_backup,size1);
 
-        this->symbol_table_types[t] = reinterpret_cast<XML_Binary_Type_Stored*>(malloc(size2));
+        this->symbol_table_types[t] = new XML_Binary_Type_Stored[symbol_count[t]];
         memcpy(this->symbol_table_types[t],table_types_backup,size2);
     }
     return true;
-- 
2.43.0


From a34d384ef5a57005df662dbcdbe811cfdf9e1936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 34/85] fix: creator: unknown names, too many symbols and
 failed writing of node were ignored and broken file was written

---
 src/bin_xml_creator.cpp | 56 +++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index ca00675..e28dc42 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -439,7 +439,9 @@ bool Bin_xml_creator::Make_xb()
     if (!AllocData(size)) return false;
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
 
+    if (write_failed) return false; // too many symbols
     this->dst_file_size = FillData();
+    if (write_failed) return false; // nothing was written yet
 #ifndef NDEBUG
     // 4. write intermediate uncompressed results to file------
     {
@@ -470,12 +472,19 @@ bool Bin_xml_creator::Make_xb()
     AA(dst_file_size);
     int written = 
         write(dst_file,data,dst_file_size);
-    assert(written == dst_file_size);
-
-    close(dst_file);
-
+    if (written != dst_file_size)
+    {
+        std::cerr << "error: " << strerror(errno) << " while write(" << dst << "," << dst_file_size << ")\n";
+        close(dst_file);
+        return false;
+    }
 
-    return (written == dst_file_size);
+    if (close(dst_file) != 0)
+    {
+        std::cerr << "error: " << strerror(errno) << " while close(" << dst << ")\n";
+        return false;
+    }
+    return true;
 }
 
 bool Bin_xml_creator::CopySymbolTable() 
@@ -559,13 +568,17 @@ bool Bin_xml_creator::Append(void *element)
 
     char *wp = data+file_align;
     AA(wp);
+    this->write_failed = false;
     this->WriteNode(&wp,element);
+    if (write_failed) return false; // no incomplete records
     
     int size = wp - data - file_align;
     int written = write(dst_file,data+file_align,size);
     if (written != size)
     {
             std::cerr << "error: " << strerror(errno) << " cannot append " << size << "B\n";
+            if (written > 0 && ftruncate(dst_file,file_info.st_size) != 0) // no incomplete records
+                ERRNO_SHOW(2052,"ftruncate",dst);
             return false;
     }
     
@@ -686,6 +699,8 @@ bool Bin_xml_creator::Make_xbw()
     // 3. allocate and fill--------------------------
     src->updateFileSize();
 
+    if (write_failed) return false; // too many symbols
+
     // 3.1 create
     //BW_plugin(const char *filename = nullptr,Bin_xml_creator *bin_xml_creator = nullptr,int max_pool_size = 0x20000,uint32_t config_flags = 0);
     BW_plugin W(dst,nullptr,MAX(0x40000,((src->getFileSize() >> 12)+1) << 16),BIN_WRITE_CFG_ALWAYS_CREATE_NEW); // 16*more - rounded up to 64kB blocks - should not grow!
@@ -888,7 +903,13 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
     
 //std::cout << /*(void*)(X)*/ (_x-data) << " " << element->name;
 
-    X->name = Find(src->getNodeName(element),SYMBOL_TABLE_NODES);
+    const char *node_name = src->getNodeName(element);
+    X->name = Find(node_name,SYMBOL_TABLE_NODES);
+    if (X->name == XTNR_NULL && node_name != nullptr) // not in symbol table
+    {
+        LOG_ERROR("[A1203] name of element '%s' is not in symbol table",node_name);
+        write_failed = true;
+    }
 
     X->paramcount = 0;  // count - how many symbols are stored here?
     if (!src->ForAllBinParams(XCountBinParamsEvent,element,X))
@@ -919,7 +940,7 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
         else
         {
             *((*_wp)++) = type;
-            ASSERT_NO_RET_NULL(1201,XBT_Copy(bin_value,type,size,_wp,data+data_size_allocated)); // copy of value
+            ASSERT_NO_(1201,XBT_Copy(bin_value,type,size,_wp,data+data_size_allocated),write_failed = true;return _x); // copy of value
         }
     }
     else
@@ -934,7 +955,8 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
             if (!XBT_FromString(value,type,_wp,data+data_size_allocated))
             {   
                 LOG_ERROR("[A1202] XBT_FromString(%s,%s,...) failed",value,XML_BINARY_TYPE_NAMES[type]);
-                return nullptr;
+                write_failed = true;
+                return _x;
             }
         }
     }
@@ -967,9 +989,14 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
 {
     XStoreParamsData *xstore_data = reinterpret_cast<XStoreParamsData*>(userdata);
     // TODO: translate param_id
-//    int name_id = 
+    int name_id = 
         xstore_data->params->name = 
-        xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
+            xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
+    if (name_id == XPNR_NULL)
+    {
+        LOG_ERROR("[A1204] name of param '%s' is not in symbol table",param_name);
+        xstore_data->creator->write_failed = true;
+    }
 
     if (param_value == nullptr || type == XBT_NULL)
     {
@@ -1012,7 +1039,7 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
         LOG("-- Storing %s : time64 %s to pointer %p -> %p-%p ... offset=%d",
             param_name,XBT_ToString(type,param_value),param_value,*xstore_data->_wp,xstore_data->_x,xstore_data->params->data);
 */
-    ASSERT_NO_DO_NOTHING(1206,XBT_Copy(param_value,type,content_size,xstore_data->_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated));
+    ASSERT_NO_(1206,XBT_Copy(param_value,type,content_size,xstore_data->_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated),xstore_data->creator->write_failed = true);
     xstore_data->params++;
 }
 
@@ -1022,6 +1049,11 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
     int name_id = 
         xstore_data->params->name = 
             xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
+    if (name_id == XPNR_NULL)
+    {
+        LOG_ERROR("[A1204] name of param '%s' is not in symbol table",param_name);
+        xstore_data->creator->write_failed = true;
+    }
 
     if (param_value == nullptr || *param_value == '\0')
     {
@@ -1238,6 +1270,7 @@ int Bin_xml_creator::FindOrAddTyped(const char *symbol,const int t,XML_Binary_Ty
     if (symbol_count[t] >= MAX_SYMBOL_COUNT)
     {
         fprintf(stderr,"Cannot add symbol '%s' to symbol table of %s - limit %d reached",symbol,(t == SYMBOL_TABLE_NODES ? "tags" : "params"),MAX_SYMBOL_COUNT);
+        write_failed = true;
         return -1; // failed
     }
 // not found --> add
@@ -1291,6 +1324,7 @@ int Bin_xml_creator::FindOrAdd(const char *symbol,const int t,const char *value)
     if (symbol_count[t] >= MAX_SYMBOL_COUNT)
     {
         fprintf(stderr,"Cannot add symbol '%s' to symbol table of %s - limit %d reached",symbol,(t == SYMBOL_TABLE_NODES ? "tags" : "params"),MAX_SYMBOL_COUNT);
+        write_failed = true;
         return -1; // failed
     }
 // not found --> add
-- 
2.43.0


From d67610f84bb0bbf47e938a2d0fc1944ce465fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 35/85] fix: creator: unknown source crashed, source file could
 be overwritten by its own result, missing target name

---
 include/binary_xml/bin_xml_creator.h |  1 +
 src/bin_xml_creator.cpp              | 21 +++++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index a02f756..f9fd149 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -116,6 +116,7 @@ public:
     bool Append(void *element);
 protected:
         bool AllocData(int64_t size);
+        bool CheckSource();
         static void FirstPassEvent(void *element,void *userdata,int deep);
 
         static void FirstPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index e28dc42..808dab8 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -316,9 +316,9 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,Bin_xml_creator_target targ
     this->src_allocated = false;
     this->target = target;
     if (target == XBTARGET_XB)
-        this->dst = AllocFilenameChangeExt(dst,".xb");
+        this->dst = AllocFilenameChangeExt(src->getFilename(),".xb");
     else
-        this->dst = AllocFilenameChangeExt(dst,".xbw");
+        this->dst = AllocFilenameChangeExt(src->getFilename(),".xbw");
     this->dst_file = -1; 
     this->dst_file_size = -1;
     this->data = nullptr;
@@ -403,8 +403,24 @@ bool Bin_xml_creator::DoAll()
         return Make_xb();
 }
 
+bool Bin_xml_creator::CheckSource()
+// result must not overwrite its own source
+{
+    ASSERT_NO_RET_FALSE(1205,src != nullptr); // unknown type of source file
+    ASSERT_NO_RET_FALSE(1208,dst != nullptr);
+
+    struct stat src_info,dst_info;
+    if (src->getFilename() == nullptr || stat(src->getFilename(),&src_info) != 0) return true; // will fail later
+    if (stat(dst,&dst_info) != 0) return true; // doesn't exist yet
+    if (src_info.st_dev != dst_info.st_dev || src_info.st_ino != dst_info.st_ino) return true;
+
+    std::cerr << "error: source and target is the same file " << dst << "\n";
+    return false;
+}
+
 bool Bin_xml_creator::Make_xb()
 {
+    if (!CheckSource()) return false;
     if (!src->Initialize()) return false;
 
     // 1. filling symbol tables----------------------
@@ -668,6 +684,7 @@ struct MakingXBW_1node
 
 bool Bin_xml_creator::Make_xbw()
 {
+    if (!CheckSource()) return false;
     if (!src->Initialize()) return false;
 
     // 1. filling symbol tables----------------------
-- 
2.43.0


From 81bc390bbb9c9ddac4cff15add4ebe37ebc73e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 36/85] fix: creator: values of attributes were changed by
 common type of attribute, HEX overwrote other attributes

---
 include/binary_xml/bin_xml_types.h | 1 +
 src/bin_xml_creator.cpp            | 7 +++----
 src/bin_xml_types.cpp              | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index cca9b38..7fa7c3c 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -97,6 +97,7 @@ typedef uint8_t XML_Binary_Type_Stored; // Binary types are stored in array of b
 extern const char *XML_BINARY_TYPE_NAMES[XBT_LAST+1];
 
 XML_Binary_Type XBT_Detect(const char *value,bool verbose = false);
+bool            XBT_KeepsText(const char *value,XML_Binary_Type type);
 XML_Binary_Type XBT_Detect2(const char *value,XML_Binary_Type expected);
 XML_Binary_Type XBT_JoinTypes(XML_Binary_Type A,XML_Binary_Type B);
 
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 808dab8..3187dcd 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1031,11 +1031,10 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
     }
     else
     {
-        int size = XBT_Size2(type,0); // empty size of type
         char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
         // bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *limit)
         
-        if (type != XBT_STRING && size <= 4 && XBT_Copy(param_value,type,0/*size*/,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+        if (XBT_IS_4(type) && XBT_Copy(param_value,type,0/*size*/,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
         { // store parameter value directly to params.data
             ASSERT_NO_DO_NOTHING(1207,in_place_wp == reinterpret_cast<char*>(&xstore_data->params->data) + 4);
             xstore_data->params->type = type;
@@ -1085,9 +1084,9 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
         type = static_cast<XML_Binary_Type>(xstore_data->creator->symbol_table_types[SYMBOL_TABLE_PARAMS][name_id]);
 
     type = XBT_Detect2(param_value,type);
-    int size = XBT_Size2(type,0);
     char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
-    if (size == 4 && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+    // common type of all values can have different text of this value
+    if (XBT_IS_4(type) && XBT_KeepsText(param_value,type) && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
     {
         xstore_data->params->type = type;
     }
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 4426468..dd3aafe 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -49,7 +49,7 @@ const char *XML_BINARY_TYPE_NAMES[XBT_LAST+1] = {
 static XML_Binary_Type s_GuessType(const char *value,bool verbose);
 static bool s_FromString(const char *&src,XML_Binary_Type type,char **_wp,char *limit);
 
-static bool s_KeepsText(const char *value,XML_Binary_Type type)
+bool XBT_KeepsText(const char *value,XML_Binary_Type type)
 // true when text is still the same after conversion to type and back
 {
     if (type == XBT_NULL || type == XBT_STRING) return true;
@@ -87,7 +87,7 @@ static bool s_KeepsText(const char *value,XML_Binary_Type type)
 XML_Binary_Type XBT_Detect(const char *value,bool verbose)
 {
     XML_Binary_Type type = s_GuessType(value,verbose);
-    return s_KeepsText(value,type) ? type : XBT_STRING; // never lose a character
+    return XBT_KeepsText(value,type) ? type : XBT_STRING; // never lose a character
 }
 
 static XML_Binary_Type s_GuessType(const char *value,bool verbose)
-- 
2.43.0


From 9358d8ed718d985d2f1f410ea3ec7be8ce74dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 37/85] fix: json: escaped characters were not decoded, value
 was overwritten by name, malformed documents crashed

---
 include/binary_xml/bin_json_plugin.h |   3 +-
 src/bin_json_plugin.cpp              | 179 ++++++++++++++++++++++-----
 2 files changed, 148 insertions(+), 34 deletions(-)

diff --git a/include/binary_xml/bin_json_plugin.h b/include/binary_xml/bin_json_plugin.h
index 746ca9f..52b9c25 100644
--- a/include/binary_xml/bin_json_plugin.h
+++ b/include/binary_xml/bin_json_plugin.h
@@ -13,7 +13,8 @@ protected:
 	int		num_tokens0;
 	int		num_tokens1;
 	int		max_str_len;
-	char		*last_str;
+	char		*last_str;	// last value
+	char		*last_name;
 	jsmntok_t 	*tokens;
 public:
 	Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 8bc538b..c1a351d 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -13,33 +13,119 @@
 namespace pklib_xml {
 
 
-static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx)
+static const int JSON_MAX_DEEP = 1000;	// whole processing is recursive
+
+static int jsmn_prepare_total_size(jsmntok_t *tokens,int count,int idx,int parent,int deep)
 // will fill my extension of jmntok_t - total_size
+// returns -1 when tokens are not correct json tree
 {
-    int total_size = 1;
+	if (idx >= count || tokens[idx].parent != parent || deep > JSON_MAX_DEEP) return -1;
+	const int end = tokens[idx].end;
+	int total_size = 1;
 	switch (tokens[idx].type)
 	{
 		case JSMN_STRING:
 		case JSMN_PRIMITIVE:
+			if (tokens[idx].size != 0) return -1; // cannot have content
 			break;
 		case JSMN_OBJECT:
 			for(int i = tokens[idx].size;i > 0;i--)
 			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
+				// key has exactly 1 value
+				const int key = idx+total_size;
+				if (key >= count || tokens[key].type != JSMN_STRING || tokens[key].size != 1 || tokens[key].parent != idx) return -1;
+				tokens[key].total_size = 1;
+				total_size++;
+
+				const int value_size = jsmn_prepare_total_size(tokens,count,idx+total_size,key,deep+1);
+				if (value_size < 0 || tokens[idx+total_size].end > end) return -1;
+				total_size += value_size;
 			}
 			break;
 		case JSMN_ARRAY:
 			for(int i = tokens[idx].size;i > 0;i--)
 			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
+				const int item_size = jsmn_prepare_total_size(tokens,count,idx+total_size,idx,deep+1);
+				if (item_size < 0 || tokens[idx+total_size].end > end) return -1;
+				total_size += item_size;
 			}
 			break;
 		default:
 			std::cerr << "jsmn_prepare_total_size: Unknown type " << tokens[idx].type << " at element " << idx << "\n";
-			_exit(1); // ERROR
+			return -1;
+	}
+	return tokens[idx].total_size = total_size;
+}
+
+static unsigned json_hex4(const char *src)
+{
+	unsigned code = 0;
+	for(int i = 0;i < 4;i++)
+	{
+		const char c = src[i];
+		code = (code << 4) + (c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10);
 	}
-    return tokens[idx].total_size = total_size;
+	return code;
+}
+
+static int json_decode(const char *src,int len,char *dst)
+// Will decode all escape sequences (syntax was checked by jsmn) - result is never longer than source
+// returns length of result without final zero
+{
+	char *wp = dst;
+	const char *end = src + len;
+	while (src < end)
+	{
+		if (*src != '\\' || end - src < 2) { *(wp++) = *(src++);continue; }
+		src++;
+		const char c = *(src++);
+		if (c == 'b') *(wp++) = '\b';
+		else if (c == 'f') *(wp++) = '\f';
+		else if (c == 'n') *(wp++) = '\n';
+		else if (c == 'r') *(wp++) = '\r';
+		else if (c == 't') *(wp++) = '\t';
+		else if (c != 'u' || end - src < 4) *(wp++) = c; // \" \\ \/
+		else
+		{
+			unsigned code = json_hex4(src);
+			src += 4;
+			if (code >= 0xd800 && code < 0xe000) // surrogates
+			{
+				unsigned low = 0;
+				if (code < 0xdc00 && end - src >= 6 && src[0] == '\\' && src[1] == 'u')
+					low = json_hex4(src+2);
+				if (low >= 0xdc00 && low < 0xe000)
+				{
+					code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+					src += 6;
+				}
+				else
+					code = 0xfffd; // single surrogate has no meaning
+			}
+			if (code < 0x80) 
+				*(wp++) = code;
+			else if (code < 0x800) 
+			{
+				*(wp++) = 0xc0 | (code >> 6);
+				*(wp++) = 0x80 | (code & 0x3f);
+			}
+			else if (code < 0x10000) 
+			{
+				*(wp++) = 0xe0 | (code >> 12);
+				*(wp++) = 0x80 | ((code >> 6) & 0x3f);
+				*(wp++) = 0x80 | (code & 0x3f);
+			}
+			else
+			{
+				*(wp++) = 0xf0 | (code >> 18);
+				*(wp++) = 0x80 | ((code >> 12) & 0x3f);
+				*(wp++) = 0x80 | ((code >> 6) & 0x3f);
+				*(wp++) = 0x80 | (code & 0x3f);
+			}
+		}
+	}
+	*wp = '\0';
+	return wp - dst;
 }
 
 //-------------------------------------------------------------------------------------------------
@@ -62,6 +148,7 @@ Bin_json_plugin::Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_c
 	this->tokens = nullptr;
 	this->max_str_len = 0;
 	this->last_str = nullptr;
+	this->last_name = nullptr;
 }
 
 Bin_json_plugin::~Bin_json_plugin()
@@ -76,6 +163,11 @@ Bin_json_plugin::~Bin_json_plugin()
 		delete [] last_str;
 		last_str = nullptr;
 	}
+	if (last_name != nullptr)
+	{
+		delete [] last_name;
+		last_name = nullptr;
+	}
 
 
 	if (source != MAP_FAILED && munmap(const_cast<char *>(source),file_size) == -1)
@@ -91,7 +183,7 @@ bool Bin_json_plugin::Initialize()
 
 	// 1. open file & mmap	
 	std::cout << "1 open & mmap ...\n";
-	int fd = open(filename,O_RDONLY);
+	fd = open(filename,O_RDONLY);
 	if (fd == -1)
 	{
 		ERRNO_SHOW(1003,"open",filename);
@@ -111,6 +203,11 @@ bool Bin_json_plugin::Initialize()
 	jsmn_init(&JP);
 	num_tokens0 = jsmn_parse(&JP,source,file_size,nullptr,0);
 	std::cout << " ... " << num_tokens0 << " tokens";
+	if (num_tokens0 <= 0)
+	{
+		std::cerr << ANSI_RED_BRIGHT "Error: " << filename << " is not valid json" ANSI_RESET_LF;
+		return false; // fail
+	}
 
 	tokens = new jsmntok_t[num_tokens0];
 	assert(tokens != nullptr);
@@ -138,13 +235,13 @@ bool Bin_json_plugin::Initialize()
 		default:
 			std::cerr << "Bin_json_plugin::Initialize() Unknown type " << tokens[i].type << " at element " << i << "\n";
             std::cerr << "Token size = " << sizeof(jsmntok_t) << "\n";
-			_exit(1); // ERROR
+			return false; // ERROR
         }
     }
 
 	// 4. json filling total_size
 //	std::cout << "prepare total_size ... " << (void*)tokens << "\n" << std::flush;
-	int total_size = jsmn_prepare_total_size(tokens,0);
+	int total_size = jsmn_prepare_total_size(tokens,num_tokens0,0,-1,0);
 	if (total_size != num_tokens0) 
 	{
 		std::cerr << ANSI_RED_BRIGHT "Error: jsmn_prepare_total_size() ---> " << total_size << " != " << num_tokens0 << ANSI_RESET_LF;
@@ -160,8 +257,22 @@ bool Bin_json_plugin::Initialize()
 		if (len > max_str_len) max_str_len = len;
 	}
 
-	last_str = new char[max_str_len+1+4];	// possible adding "Item"
+	last_str = new char[max_str_len+1];
 	last_str[max_str_len] = '\0';
+	last_name = new char[max_str_len+1+4];	// possible adding "Item"
+	last_name[max_str_len] = '\0';
+
+	// 6. zero cannot be stored in strings
+	for(int i = 0;i < num_tokens1;i++)
+	{
+		if (tokens[i].type != JSMN_STRING) continue;
+		int len = json_decode(source + tokens[i].start,tokens[i].end - tokens[i].start,last_str);
+		if (memchr(last_str,'\0',len) != nullptr)
+		{
+			std::cerr << ANSI_RED_BRIGHT "Error: " << filename << " contains character \\u0000" ANSI_RESET_LF;
+			return false; // fail
+		}
+	}
 
 	return true;
 }
@@ -192,33 +303,31 @@ const char *Bin_json_plugin::getNodeName(void *element)
 		{
 			assert(P2->start >= 0 && P2->start < file_size);
 			assert(P2->end > 0 && P2->end <= file_size);
-			int len = P2->end - P2->start;
-			strncpy(last_str,source + P2->start,len);
-			
-			last_str[len] = 0;
-			if (last_str[len-1] == 's')
+			int len = json_decode(source + P2->start,P2->end - P2->start,last_name);
+
+			if (len > 0 && last_name[len-1] == 's')
 			{
-				last_str[len-1] = '\0';
+				last_name[len-1] = '\0';
 			}
 			else if (len > 4 
-				&& last_str[len-4] == 'L'
-				&& last_str[len-3] == 'i'
-				&& last_str[len-2] == 's'
-				&& last_str[len-1] == 't')
+				&& last_name[len-4] == 'L'
+				&& last_name[len-3] == 'i'
+				&& last_name[len-2] == 's'
+				&& last_name[len-1] == 't')
 			{
-				last_str[len-4] = '\0';
+				last_name[len-4] = '\0';
 			}
 			else
 			{
-				last_str[len++] = 'I';
-				last_str[len++] = 't';
-				last_str[len++] = 'e';
-				last_str[len++] = 'm';
-				last_str[len++] = '\0';
+				last_name[len++] = 'I';
+				last_name[len++] = 't';
+				last_name[len++] = 'e';
+				last_name[len++] = 'm';
+				last_name[len++] = '\0';
 			}
 
 
-			return last_str;
+			return last_name;
 		}
 		return "__ARRAY_ITEM_NAME__";
 	}
@@ -229,9 +338,8 @@ const char *Bin_json_plugin::getNodeName(void *element)
 	assert(X->start >= 0 && X->start < file_size);
 	assert(X->end > 0 && X->end <= file_size);
 	
-	strncpy(last_str,source + X->start,X->end - X->start);
-	last_str[X->end - X->start] = 0;
-	return last_str;
+	json_decode(source + X->start,X->end - X->start,last_name); // value of the same node is still used
+	return last_name;
 }
 
 const char *Bin_json_plugin::getNodeValue(void *element)
@@ -251,8 +359,13 @@ const char *Bin_json_plugin::getNodeValue(void *element)
 	}
 // ok, P ukazuje na hodnotu nebo podstrom
 	if (X->type != JSMN_STRING && X->type != JSMN_PRIMITIVE) return nullptr; // name
-	strncpy(last_str,source + X->start,X->end - X->start);
-	last_str[X->end - X->start] = 0;
+	if (X->type == JSMN_STRING)
+		json_decode(source + X->start,X->end - X->start,last_str);
+	else
+	{
+		memcpy(last_str,source + X->start,X->end - X->start);
+		last_str[X->end - X->start] = '\0';
+	}
 	return last_str;
 }
 
-- 
2.43.0


From 0fa6f5b080f15815d9537c4a0875d6214551beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 38/85] fix: xml: text divided by comments, CDATA or entities
 was lost, empty attribute crashed, prefixes of attributes were lost

---
 include/binary_xml/bin_xml_plugin.h |   4 +
 src/bin_xml_plugin.cpp              | 116 ++++++++++++++++++++++++----
 2 files changed, 103 insertions(+), 17 deletions(-)

diff --git a/include/binary_xml/bin_xml_plugin.h b/include/binary_xml/bin_xml_plugin.h
index 02a2091..c380719 100644
--- a/include/binary_xml/bin_xml_plugin.h
+++ b/include/binary_xml/bin_xml_plugin.h
@@ -11,6 +11,10 @@ class Bin_xml_plugin : public Bin_src_plugin // interface for xml input format
 protected:
     xmlDoc      *doc;
     xmlNode     *root_element;
+    xmlChar     *text; // value composed from more nodes
+
+    void ForAllElements(OnElement_t on_element,const xmlNode *list,void *userdata);
+    void ForAllElementsRecursively(OnElementRec_t on_element,const xmlNode *list,void *userdata,int deep);
 public:
     Bin_xml_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
     virtual ~Bin_xml_plugin();
diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index 3db0ee9..d2ac4ba 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -1,5 +1,6 @@
 #include <binary_xml/bin_xml_plugin.h>
 #include <assert.h>
+#include <stdio.h>
 
 namespace pklib_xml {
 
@@ -9,6 +10,7 @@ Bin_xml_plugin::Bin_xml_plugin(const char *filename,Bin_xml_creator *bin_xml_cre
     LIBXML_TEST_VERSION;
     this->doc = nullptr;
     this->root_element = nullptr;
+    this->text = nullptr;
 }
 
 /*static void print_element_names(xmlNode * a_node)
@@ -29,6 +31,11 @@ Bin_xml_plugin::Bin_xml_plugin(const char *filename,Bin_xml_creator *bin_xml_cre
 
 Bin_xml_plugin::~Bin_xml_plugin()
 {
+    if (text != nullptr)
+    {
+        xmlFree(text);
+        text = nullptr;
+    }
     if (doc != nullptr) 
     {
         xmlFreeDoc(doc);
@@ -71,12 +78,60 @@ const char *Bin_xml_plugin::getNodeName(void *element)
     return reinterpret_cast<const char*>(X->name);
 }
 
+static const xmlNode *s_EntityContent(const xmlNode *X)
+// returns parsed content of referenced internal entity
+{
+    if (X->type != XML_ENTITY_REF_NODE) return nullptr;
+    const xmlEntity *entity = xmlGetDocEntity(X->doc,X->name);
+    if (entity == nullptr || entity->etype != XML_INTERNAL_GENERAL_ENTITY) return nullptr;
+    return entity->children;
+}
+
+static bool s_HasElements(const xmlNode *list)
+{
+    for(const xmlNode *X = list;X != nullptr;X = X->next)
+        if (X->type == XML_ELEMENT_NODE || s_HasElements(s_EntityContent(X))) return true;
+    return false;
+}
+
+static void s_AddText(xmlBuffer *buffer,const xmlNode *list,bool skip_blank)
+{
+    for(const xmlNode *X = list;X != nullptr;X = X->next)
+    {
+        if (X->type == XML_ENTITY_REF_NODE)
+            s_AddText(buffer,s_EntityContent(X),skip_blank);
+        else if (X->type != XML_TEXT_NODE && X->type != XML_CDATA_SECTION_NODE)
+            continue;
+        else if (!skip_blank || !xmlIsBlankNode(X)) // blank is only formatting of children
+            xmlBufferCat(buffer,X->content);
+    }
+}
+
+static xmlChar *s_GetText(const xmlNode *list,bool skip_blank)
+// text can be divided to more nodes by comments, CDATA sections, entities or children
+{
+    xmlBuffer *buffer = xmlBufferCreate();
+    if (buffer == nullptr) return nullptr;
+    xmlBufferSetAllocationScheme(buffer,XML_BUFFER_ALLOC_DOUBLEIT);
+    s_AddText(buffer,list,skip_blank);
+    xmlChar *text = xmlBufferDetach(buffer);
+    xmlBufferFree(buffer);
+    return text;
+}
+
 const char *Bin_xml_plugin::getNodeValue(void *element)
 {
     xmlNode *X = reinterpret_cast<xmlNode *>(element);
     if (X->children == nullptr) return nullptr;
-    if (X->children->type != XML_TEXT_NODE) return nullptr;
-    const char *value = reinterpret_cast<const char *>(X->children->content);
+    const char *value;
+    if (X->children->type == XML_TEXT_NODE && X->children->next == nullptr)
+        value = reinterpret_cast<const char *>(X->children->content);
+    else
+    {
+        if (text != nullptr) xmlFree(text);
+        text = s_GetText(X->children,s_HasElements(X->children));
+        value = reinterpret_cast<const char *>(text);
+    }
     if (value == nullptr) return nullptr;
 //  if (X->childcount > 0) // is there nonspace value?
     while(*value != '\0' && isspace(*value)) value++;
@@ -85,14 +140,22 @@ const char *Bin_xml_plugin::getNodeValue(void *element)
 }
 //-------------------------------------------------------------------------------------------------
 
+void Bin_xml_plugin::ForAllElements(OnElement_t on_element,const xmlNode *list,void *userdata)
+// elements can be in referenced entities too
+{
+    for(const xmlNode *X = list;X != nullptr;X = X->next)
+        if (X->type == XML_ELEMENT_NODE)
+            on_element(const_cast<xmlNode*>(X),userdata);
+        else
+            ForAllElements(on_element,s_EntityContent(X),userdata);
+}
+
 void Bin_xml_plugin::ForAllChildren(OnElement_t on_element,void *parent,void *userdata)
 {
     assert(on_element != nullptr);
     if (parent == nullptr) return; // done
 
-    for(xmlNode *X = reinterpret_cast<xmlNode *>(parent)->children;X != nullptr;X = X->next)
-        if (X->type == XML_ELEMENT_NODE)
-            on_element(X,userdata);
+    ForAllElements(on_element,reinterpret_cast<xmlNode *>(parent)->children,userdata);
 }
 
 void Bin_xml_plugin::ForAllChildrenRecursively(OnElementRec_t on_element,void *parent,void *userdata,int deep)
@@ -101,11 +164,16 @@ void Bin_xml_plugin::ForAllChildrenRecursively(OnElementRec_t on_element,void *p
     if (parent == nullptr) return; // done
     on_element(reinterpret_cast<xmlNode*>(parent),userdata,deep);
 
-    for(xmlNode *X = reinterpret_cast<xmlNode *>(parent)->children;X != nullptr;X = X->next)
+    ForAllElementsRecursively(on_element,reinterpret_cast<xmlNode *>(parent)->children,userdata,deep+1);
+}
+
+void Bin_xml_plugin::ForAllElementsRecursively(OnElementRec_t on_element,const xmlNode *list,void *userdata,int deep)
+{
+    for(const xmlNode *X = list;X != nullptr;X = X->next)
         if (X->type == XML_ELEMENT_NODE)
-        {
-            ForAllChildrenRecursively(on_element,X,userdata,deep+1);
-        }
+            ForAllChildrenRecursively(on_element,const_cast<xmlNode*>(X),userdata,deep);
+        else
+            ForAllElementsRecursively(on_element,s_EntityContent(X),userdata,deep);
 }
 
 void Bin_xml_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdata)
@@ -118,18 +186,32 @@ void Bin_xml_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdat
     {   
         on_param("xmlns",(X->ns->href != nullptr ? reinterpret_cast<const char *>(X->ns->href) : ""),element,userdata);
     }
-    else if (X->nsDef != nullptr)
-    {   
-        on_param("xmlns",(X->nsDef->href != nullptr ? reinterpret_cast<const char *>(X->nsDef->href) : ""),element,userdata);
-    }
+    else if (X->parent != nullptr && X->parent->type == XML_ELEMENT_NODE && X->parent->ns != nullptr)
+        on_param("xmlns","",element,userdata); // namespace of parent is not inherited
 
+    char name[512];
+    for(xmlNs *N = X->nsDef;N != nullptr;N = N->next)
+    {
+        if (N->prefix == nullptr) continue; // default namespace is stored by its usage
+        if (snprintf(name,sizeof(name),"xmlns:%s",N->prefix) >= (int)sizeof(name)) continue;
+        on_param(name,(N->href != nullptr ? reinterpret_cast<const char *>(N->href) : ""),element,userdata);
+    }
 
     for(xmlAttr *A = X->properties;A != nullptr;A = A->next)
     {
-        assert(A->children->type == XML_TEXT_NODE);
-        const char *value = reinterpret_cast<const char*>(A->children->content);
-    
-        on_param(reinterpret_cast<const char*>(A->name),value,element,userdata);
+        const char *attr_name = reinterpret_cast<const char*>(A->name);
+        if (A->ns != nullptr && A->ns->prefix != nullptr 
+            && snprintf(name,sizeof(name),"%s:%s",A->ns->prefix,A->name) < (int)sizeof(name))
+            attr_name = name;
+
+        if (A->children != nullptr && A->children->type == XML_TEXT_NODE && A->children->next == nullptr)
+            on_param(attr_name,reinterpret_cast<const char*>(A->children->content),element,userdata);
+        else
+        {
+            xmlChar *value = s_GetText(A->children,false);
+            on_param(attr_name,(value != nullptr ? reinterpret_cast<const char*>(value) : ""),element,userdata);
+            if (value != nullptr) xmlFree(value);
+        }
     }
 }
 
-- 
2.43.0


From a2c01703dbda997ecfea0df3abbdc68b1e76b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 39/85] fix: packer: index of nodes overflowed stack in bigger
 documents

---
 src/bin_xml_packer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index cc1a367..2c88991 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -159,7 +159,7 @@ void Bin_xml_packer::MarkReferences()
     DBG(std::cout << "==================" << computed_hashes << " OK\n");
 
 // sort all
-    SN.index = reinterpret_cast<int*>(alloca(sizeof(int)*total_node_count));
+    SN.index = new int[total_node_count];
     for(int i = 0;i < total_node_count;i++) SN.index[i] = i;
     mergesort_r2
        (reinterpret_cast<void*>(SN.index),
@@ -240,6 +240,7 @@ void Bin_xml_packer::MarkReferences()
     }
     delete [] SN.node_links;
     delete [] SN.node_hashes;
+    delete [] SN.index;
 }
 
 char *Bin_xml_packer::PackNode(char **_wp,char *_X)
-- 
2.43.0


From 6381847615905d9fc6c5c96caadaceaede834f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 40/85] fix: packer: moved nodes lost alignment of 8 byte
 values, rest of original content stayed behind end

---
 src/bin_xml_packer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index 2c88991..36fa06a 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -93,6 +93,7 @@ int32_t Bin_xml_packer::Pack()
 
     XML_Item *X_dst = reinterpret_cast<XML_Item*>(PackNode(&_wp,this->data));
     memcpy(data,data2,X_dst->length);
+    memset(data+X_dst->length,0,dst_file_size-X_dst->length); // padding of shorter file
     int32_t size = X_dst->length;
     
     delete [] data2;data2 = nullptr;
@@ -252,10 +253,16 @@ char *Bin_xml_packer::PackNode(char **_wp,char *_X)
 // _X is pointer to XML_Item in source data space
 // _x is pointer to XML_Item in destionation data2 space
 {
+    XML_Item *X_src = reinterpret_cast<XML_Item*>(_X);
     AA(*_wp);
+    // 8 byte values inside node must stay aligned (never behind original position)
+    if (X_src->name != XTNR_REFERENCE && (((*_wp - data2) ^ (_X - data)) & 4) != 0)
+    {
+        memset(*_wp,0,4);
+        *_wp += 4;
+    }
     char *_x = *_wp;
     
-    XML_Item *X_src = reinterpret_cast<XML_Item*>(_X);
     XML_Item *X_dst = reinterpret_cast<XML_Item*>(_x);
 
     DBG(if (X_src->name == XTNR_PARAM_SYMBOLS)
-- 
2.43.0


From 22acc5659d1b241c88a5817757edb27d71c5f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 41/85] fix: reader: damaged files were read outside of memory
 or aborted, incomplete appended records, special characters were not escaped
 in exported xml, name of caller was changed

---
 include/binary_xml/bin_xml.h       |   5 +
 include/binary_xml/bin_xml_types.h |   2 +-
 src/bin_xml.cpp                    | 305 ++++++++++++++++-------------
 src/bin_xml_creator.cpp            |  11 +-
 src/bin_xml_types.cpp              |   6 +-
 5 files changed, 185 insertions(+), 144 deletions(-)

diff --git a/include/binary_xml/bin_xml.h b/include/binary_xml/bin_xml.h
index 046cd15..37f864c 100644
--- a/include/binary_xml/bin_xml.h
+++ b/include/binary_xml/bin_xml.h
@@ -195,6 +195,11 @@ public:
     _XB_symbol_table    tag_symbols;
     _XB_symbol_table    param_symbols;
     int                 verbosity; // this >0 can enable debug messages
+    int                 appended_end; // all complete records appended after doc are before this offset
+protected:
+    char               *converted_filename; // name of file made by automatic conversion
+
+    bool CheckFile();
 public:
     XB_reader(char *filename);
     virtual ~XB_reader();
diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 7fa7c3c..af787a9 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -117,7 +117,7 @@ const char     *XBT_ToString(XML_Binary_Type type,const char *data);
 int             XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *dst,int dst_size);
     
 void            XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os);
-void            XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os);
+void            XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool attribute = false);
 
 //-------------------------------------------------------------------------------------------------
 
diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index a287516..f31d7b5 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -22,90 +22,114 @@ namespace pklib_xml
 {
 
 
-bool XML_Item::Check(XB_reader *R,bool recursive) 
-// I want to check everything to be 100% sure, data are ok
+static bool s_CheckValue(XML_Binary_Type type,const char *value,const char *end)
+// Is whole value stored before end?
 {
-    if (THIS_IS_NULL) return false;  // NULL is not ok
-    if (R == nullptr) return false;
-    if (this < R->doc) return false; // out of space
-    if (reinterpret_cast<const char *>(this)+sizeof(XML_Item) > reinterpret_cast<const char *>(R->doc)+R->size) return false;
-    if (reinterpret_cast<const char *>(this)+length > reinterpret_cast<const char *>(R->doc)+R->size) return false;
-    
-    const char *p = reinterpret_cast<const char*>(this);
-    const char *p0 = p;
-    AA(p);
-//    std::cout << "XML_Item::Check " << (void*)this << "\n";
-    if (p != p0)
+    if (type == XBT_NULL) return true;
+    if (type == XBT_STRING)
+        return value < end && memchr(value,'\0',end - value) != nullptr;
+
+    // value is aligned
+    if (XBT_IS_8(type))
+        AA8(value);
+    else
+        AA(value);
+
+    if (XBT_IS_4(type)) 
+        return end - value >= 4;
+    if (XBT_IS_VARSIZE(type))
     {
-        std::cout << ANSI_RED_BRIGHT "XML_Item " << (void*)this << " is not aligned!" ANSI_RESET_LF;
-        return false;
+        if (end - value < (int)sizeof(int32_t)) return false;
+        const int32_t size = *reinterpret_cast<const int32_t*>(value);
+        return size >= 0 && size <= end - value - (int)sizeof(int32_t);
     }
-    
-// name check
-    if (name <= XTNR_LAST) return false;
-    if (name >= R->tag_symbols.count) return false;
+    const int size = XBT_FIXEDSIZE(type);
+    return size > 0 && end - value >= size; // other types are not stored in files
+}
+
+static int s_CheckItem(XML_Item *X,XB_reader *R,const char *begin,const char *end,bool recursive,uint16_t *heights,int deep)
+// Will check, that all content of item is stored in <begin,end)
+// begin - the 1st byte where shared (packed) content can be placed, nullptr - no shared content and no et-tecera allowed
+// heights - heights of already checked items, shared items are checked only once
+// returns 0 when something is wrong or height of item
+{
+    const char *_x = reinterpret_cast<const char*>(X);
+    if (deep > XML_MAX_DEEP) return 0;
+    if (((intptr_t)_x & 3) != 0)
+    {
+        std::cout << ANSI_RED_BRIGHT "XML_Item " << (void*)X << " is not aligned!" ANSI_RESET_LF;
+        return 0;
+    }
+    if (_x < reinterpret_cast<const char*>(R->doc) || _x > end || end - _x < (int)sizeof(XML_Item)) return 0; // out of space
 // size check
-    if (sizeof(XML_Item)+paramcount*sizeof(XML_Param_Description)+childcount*sizeof(relative_ptr_t) > (unsigned)length) return false; // not safe to access params or children
+    if (X->paramcount < 0 || X->childcount < 0) return 0;
+    const int64_t header_size = sizeof(XML_Item) + X->paramcount * sizeof(XML_Param_Description) + X->childcount * (int64_t)sizeof(relative_ptr_t);
+    if (X->length > end - _x) return 0;
+    if (header_size + 1 > X->length) return 0; // not safe to access params, children or type of value
+    const char *item_end = _x + X->length;
+
+    uint16_t *height = (heights != nullptr ? heights + ((_x - reinterpret_cast<const char*>(R->doc)) >> 2) : nullptr);
+    if (height != nullptr && *height != 0) return deep + *height > XML_MAX_DEEP+1 ? 0 : *height; // checked
+// name check
+    if (X->name <= XTNR_LAST || X->name >= R->tag_symbols.count) return 0;
+    if (X->name == XTNR_ET_TECERA && begin == nullptr && deep > 0) return 0;
+// value check
+    const XML_Binary_Type value_type = static_cast<XML_Binary_Type>(static_cast<XML_Binary_Type_Stored>(_x[header_size]));
+    if (value_type >= XBT_LAST || !s_CheckValue(value_type,_x+header_size+1,item_end)) return 0;
 // params check
-    for(int p = 0;p < paramcount;p++)
+    for(int p = 0;p < X->paramcount;p++)
     {
-        XML_Param_Description *PD = getParamByIndex(p);
-        if (PD->name <= XPNR_LAST) return false; // too low
-        if (PD->name >= R->param_symbols.count) return false; // too high
-        if (PD->type < XBT_NULL) return false;
-        if (PD->type >= XBT_LAST) return false;
+        const XML_Param_Description *PD = X->getParamByIndex(p);
+        if (PD->name <= XPNR_LAST) return 0; // too low
+        if (PD->name >= R->param_symbols.count) return 0; // too high
+        if (PD->type >= XBT_LAST) return 0;
     // inline parameters
-        if (PD->type == XBT_NULL) continue;
-        if (PD->type == XBT_INT32) continue;
-        if (PD->type == XBT_FLOAT) continue;
-        if (PD->type == XBT_UNIX_TIME) continue;
-        if (PD->type == XBT_IPv4) continue; 
+        if (PD->type == XBT_NULL || XBT_IS_4(PD->type)) continue;
     // check link
-        if (PD->data < 0) return false; // reference out of node is not allowed here and yet
-        if (PD->data >= length) return false; // pointer out of limit
-        
-
-        switch (PD->type)
+        if (PD->data < header_size || PD->data >= X->length) return 0; // reference out of node is not allowed here and yet
+        if (PD->type != XBT_STRING && (PD->data & 3) != 0) return 0; // not aligned
+        if (!s_CheckValue(static_cast<XML_Binary_Type>(PD->type),_x+PD->data,item_end)) return 0;
+    }
+// children check
+    const relative_ptr_t *children = X->getChildren();
+    int max_height = 0;
+    for(int i = 0;i < X->childcount;i++)
+    {
+        const int64_t child_rel = children[i];
+        const char *child = _x + child_rel;
+        if ((child_rel & 3) != 0) return 0;
+        if (child_rel >= header_size) // inside of this item
         {
-            case XBT_STRING:
-                {
-                    int max_len = this->length - PD->data;
-                    int len = strnlen(reinterpret_cast<const char *>(this)+PD->data,max_len);
-                    return len < max_len;
-                }
-            case XBT_INT64:
-                return PD->data+sizeof(int64_t) <= (unsigned)this->length;
-            case XBT_UINT64:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-//            case XBT_UNIX_TIME:
-//                return PD->data+sizeof(uint32_t) <= (unsigned)this->length;
-            case XBT_UNIX_TIME64_MSEC:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-            case XBT_DOUBLE:
-                return PD->data+sizeof(double) <= (unsigned)this->length;
-            case XBT_SHA1:
-                return PD->data+sizeof(hash192_t) <= (unsigned)this->length;
-            case XBT_GUID:
-                return PD->data+sizeof(GUID_t) <= (unsigned)this->length;
-            case XBT_IPv6:
-                return PD->data+sizeof(IPv6_t) <= (unsigned)this->length;
-            default:
-                std::cerr << "Error: Parameter type " << PD->type << " is not supported now!\n";
-                return false;
+            if (child_rel + (int)sizeof(XML_Item) > X->length) return 0;
         }
-    }
-// TODO: check value
+        else // shared content is whole before this item, so cycles are not possible
+            if (child_rel >= 0 || begin == nullptr || child < begin || child + sizeof(XML_Item) > _x) return 0;
 
+        if (!recursive) continue;
+        const int child_height = s_CheckItem(reinterpret_cast<XML_Item*>(const_cast<char*>(child)),R,begin,(child_rel > 0 ? item_end : _x),true,heights,deep+1);
+        if (child_height == 0) return 0;
+        if (child_height > max_height) max_height = child_height;
+    }
+    if (height != nullptr && recursive) *height = max_height + 1;
+    return max_height + 1;
+}
 
+bool XML_Item::Check(XB_reader *R,bool recursive) 
+// I want to check everything to be 100% sure, data are ok
+{
+    if (THIS_IS_NULL) return false;  // NULL is not ok
+    if (R == nullptr || R->doc == nullptr || R->doc == MAP_FAILED) return false;
+    
+    uint16_t *heights = nullptr;
     if (recursive)
-        for(int i = 0;i < childcount;i++)
-        {
-            XML_Item *X = getChildByIndex(i);
-            if (X == nullptr) return false;
-            if (!X->Check(R,true)) return false;
-        }
-            
-    return true;
+    {
+        heights = reinterpret_cast<uint16_t*>(calloc(R->size/4+1,sizeof(uint16_t)));
+        if (heights == nullptr) return false;
+    }
+    const char *doc = reinterpret_cast<const char*>(R->doc);
+    const bool result = s_CheckItem(this,R,doc+sizeof(XML_Item),doc+R->size,recursive,heights,0) > 0;
+    free(heights);
+    return result;
 }
 
 //-------------------------------------------------------------------------------------------------
@@ -277,9 +301,8 @@ XML_Item *XML_Item::getNextChild(XB_reader &R,int &i) // this method can show ev
     int offset = -i;
     AA(offset);
     
-    if (offset + (int)sizeof(XML_Item) > (int)R.size) return nullptr; // end of data -> no more can fit
+    if (offset >= R.appended_end) return nullptr; // end of data -> only whole and correct XML_Items are there
     XML_Item *X = reinterpret_cast<XML_Item*>(reinterpret_cast<char*>(R.doc) + offset);
-    if (offset + X->length > (int)R.size) return nullptr; // something is strange - no whole XML_Item is stored in file        
     // must find the first extended record
     offset += X->length;
     AA(offset); // align!
@@ -537,14 +560,8 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         XML_Param_Description *param = getParamByIndex(p);
         os << " " << R.getParamName(param->name) << "=\"";
     
-
-        char buffer[4096+1];
-        for(int offset = 0;;)
-        {
-            int len = param->getStringChunk(this,offset,buffer,sizeof(buffer));
-            if (len == 0) break;// TODO: escape param_value!
-            os << buffer;
-        }
+        const XML_Binary_Data_Ref D = param->getData(this);
+        XBT_ToXMLStream(D.type,D.data,os,true);
 /*        LOG("\tparam[%d]:name=%s (%d) type=%s (%d) data=%d absolute=%08x",p,
             R.getParamName(param->name),param->name,
             XML_BINARY_TYPE_NAMES[param->type],param->type,
@@ -552,7 +569,7 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
 */
         os << "\"";
     }
-    char buffer[4096+1];
+    const XML_Binary_Data_Ref D = getData();
     if (childcount > 0)
     {
         os << ">\n";
@@ -573,26 +590,20 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         TAB;
 
 
-        for(int offset = 0;;)
-        {
-            int len = getStringChunk(offset,buffer,sizeof(buffer));
-            if (len == 0) break;
-        // TODO: escape param_value!
-            os << buffer;
-        }
-        os << "\n";    // TODO: escape value!
+        XBT_ToXMLStream(D.type,D.data,os);
+        os << "\n";
         TAB;os << "</" << R.getNodeName(name) << ">\n";
     }
     else
     {
         int offset = 0;
+        char buffer[MIN_OUT_BUFFER_SIZE+64];
         if (getStringChunk(offset,buffer,sizeof(buffer)) == 0)
                 os << "/>\n";
         else
         {
-                os << ">" << buffer;
-                while (getStringChunk(offset,buffer,sizeof(buffer)) > 0)
-                    os << buffer;
+                os << ">";
+                XBT_ToXMLStream(D.type,D.data,os);
                 os << "</" << R.getNodeName(name) << ">\n";
         }
     }
@@ -625,6 +636,7 @@ const char *XML_Param_Description::getString(const XML_Item *X) const
 _XB_symbol_table::_XB_symbol_table()
 {
     count = 0;
+    type_count = 0;
 // these pointers refers to xb content directly
     item_container = nullptr;
     reference_array = nullptr;
@@ -645,14 +657,18 @@ bool _XB_symbol_table::Load(XML_Item *container)
 // or in <param_symbols ...> element
 {
     item_container = container;
-    count = container->getParamByName(XPNR_COUNT)->getInt(container);
-    if (count == INT32_NULL) return false;
+    count = type_count = 0; // until all is checked
+    const XML_Param_Description *count_param = container->getParamByName(XPNR_COUNT);
+    if (count_param == nullptr) return false;
+    const int count = count_param->getInt(container);
     if (count == 0) return true; // ok, no symbols
+    if (count < 0 || count > XTNR_MAX + 1) return false;
 
-    type_count = container->getParamByName(XPNR_TYPE_COUNT)->getInt(container);
+    const XML_Param_Description *type_count_param = container->getParamByName(XPNR_TYPE_COUNT);
+    int type_count = (type_count_param != nullptr ? type_count_param->getInt(container) : INT32_NULL);
     if (type_count == INT32_NULL)
         type_count = 0;
-
+    if (type_count < 0) return false;
     
     int32_t size = -1; // size of whole data block - reference_array & strings
     reference_array = reinterpret_cast<const relative_ptr_t*>(container->getBinary(&size));
@@ -662,12 +678,12 @@ bool _XB_symbol_table::Load(XML_Item *container)
         return false;
     }*/
 //    std::cout << "*** Reading symbol table of " << count << " elements with size " << size << " bytes.\n";
-    if (reference_array == nullptr) return false;   // count != 0
+    if (reference_array == nullptr || ((intptr_t)reference_array & 3) != 0) return false;   // count != 0
+    if (size < (int64_t)count * (int)sizeof(relative_ptr_t) + type_count) return false; // no place for strings and reference_arrays
     
     type_array = reinterpret_cast<const XML_Binary_Type_Stored*>(reference_array+count);
     const char *A0 = reinterpret_cast<const char*>(type_array+type_count);  // start of string area after last item in reference_array
     const char *A1 = reinterpret_cast<const char*>(reference_array)+size;   // end of string area as begin of binary data + it's size
-    if (A0 > A1) return false; // no place for strings and reference_arrays
     for(int s = 0;s < count;s++)
     {
         const char *value = reinterpret_cast<const char*>(container) + reference_array[s];
@@ -677,6 +693,8 @@ bool _XB_symbol_table::Load(XML_Item *container)
         int len = strnlen(value,max_len);
         if (len == max_len) return false; // unterminated string
     }
+    this->count = count;
+    this->type_count = type_count;
     return true;
 }
 
@@ -698,6 +716,7 @@ XML_Binary_Type_Stored  _XB_symbol_table::getType(tag_name_id_t name_id) const
 
 int _XB_symbol_table::getID(const char *name) const
 {
+    if (name == nullptr) return -1;
     int B = 0;
     int E = count - 1;
 // interval B <= X <= E
@@ -720,8 +739,11 @@ int _XB_symbol_table::getID(const char *name) const
 XB_reader::XB_reader(char *filename)
 {
     this->filename = filename;
+    this->converted_filename = nullptr;
     this->size = -1;
     this->fd = -1;
+    this->appended_end = 0;
+    this->verbosity = 0;
     
     this->doc = reinterpret_cast<XML_Item*>(MAP_FAILED);
     this->data = nullptr;
@@ -734,6 +756,7 @@ XB_reader::~XB_reader()
 #ifndef NDEBUG
 //    printf("~XB_reader(%s)\n",this->filename);
 #endif
+    delete [] converted_filename;
 }
 
 bool XB_reader::setFilename(char *filename)  // can set filename later
@@ -753,36 +776,24 @@ bool XB_reader::Initialize()
 //    printf("XB_reader::Initialize\n");
 //    printf("filename=%s\n",this->filename);
 
+    ASSERT_NO_RET_FALSE(1177,this->filename != nullptr);
 // conversion
-    char *last_dot = strrchr(this->filename,'.');
+    const char *last_dot = strrchr(this->filename,'.');
     if (last_dot != nullptr && (
             strcmp(last_dot,".xml") == 0 || 
             strcmp(last_dot,".xsd") == 0 || 
-            strcmp(last_dot,".wsdl") == 0)) // it is xml!
-    {
-        char xml_filename[PATH_MAX];
-        STRCPY(xml_filename,this->filename);
-        *(last_dot++) = '.';
-        *(last_dot++) = 'x';
-        *(last_dot++) = 'b';
-        *(last_dot++) = '\0';
-        
-        printf("convert xml to %s\n",this->filename);
-        if (!pklib_xml::Bin_xml_packer::Convert(xml_filename,this->filename))
-            return false;
-
-    }
-    else if (last_dot != nullptr && strcmp(last_dot,".json") == 0) // it is xml!
+            strcmp(last_dot,".wsdl") == 0 ||
+            strcmp(last_dot,".json") == 0)) // it is xml or json!
     {
-        char json_filename[PATH_MAX];
-        STRCPY(json_filename,this->filename);
-        *(last_dot++) = '.';
-        *(last_dot++) = 'x';
-        *(last_dot++) = 'b';
-        *(last_dot++) = '\0';
+        char *xb_filename = AllocFilenameChangeExt(this->filename,".xb"); // name of caller must not be changed
+        ASSERT_NO_RET_FALSE(1178,xb_filename != nullptr);
         
-        if (!pklib_xml::Bin_xml_packer::Convert(json_filename,this->filename))
-            return false;
+        printf("convert %s to %s\n",last_dot+1,xb_filename);
+        const bool converted = pklib_xml::Bin_xml_packer::Convert(this->filename,xb_filename);
+
+        delete [] converted_filename;
+        this->filename = converted_filename = xb_filename;
+        if (!converted) return false;
     }
 
 // open
@@ -793,8 +804,13 @@ bool XB_reader::Initialize()
         return false;
     }
 
-    size = file_getsize(this->filename);
-    assert(size > sizeof(XML_Item));
+    const off_t file_size = file_getsize(this->filename);
+    if (file_size <= (off_t)sizeof(XML_Item) || file_size > INT_MAX)
+    {
+        std::cerr << "error: " << this->filename << " is not valid binary xml file\n";
+        return false;
+    }
+    size = file_size;
 
     doc = reinterpret_cast<XML_Item*>(mmap(NULL,size,PROT_READ,MAP_SHARED,fd,0));
     if (doc == MAP_FAILED)
@@ -802,27 +818,50 @@ bool XB_reader::Initialize()
         ERRNO_SHOW(1025,"mmap",filename);
         return false;
     }
-    assert(doc->name == XTNR_META_ROOT);
+    if (!CheckFile())
+    {
+        std::cerr << "error: " << this->filename << " is not valid binary xml file\n";
+        return false;
+    }
+
+    //    std::cout << "DBG: data = " << (void*)doc;
+
+    data = doc->getChildByName(XTNR_PAYLOAD)->getChildByIndex(0);
+
+    return true;
+}
 
+bool XB_reader::CheckFile()
+// Content of file can be damaged, nothing can be used without check
+{
+    if (doc->name != XTNR_META_ROOT) return false;
     // check only root element
     if (!doc->Check(this,false)) return false;
 
     XML_Item *X = doc->getChildByName(XTNR_TAG_SYMBOLS);
-    if (!X->Check(this,false)) return false;
+    if (X == nullptr || !X->Check(this,false)) return false;
     if (!tag_symbols.Load(X)) return false;
 
     X = doc->getChildByName(XTNR_PARAM_SYMBOLS);
-    if (!X->Check(this,false)) return false;
+    if (X == nullptr || !X->Check(this,false)) return false;
     if (!param_symbols.Load(X)) return false;
 
-
     // recursive check all elements - both symbol tables are loaded -> can check recursively
     if (!doc->Check(this,true)) return false;   
 
-    //    std::cout << "DBG: data = " << (void*)doc;
-
-    data = doc->getChildByName(XTNR_PAYLOAD)->getChildByIndex(0);
+    X = doc->getChildByName(XTNR_PAYLOAD);
+    if (X == nullptr || X->childcount < 1) return false;
 
+    // records appended to the end of file - only complete records can be used
+    appended_end = doc->length;
+    AA(appended_end);
+    while (size - appended_end >= sizeof(XML_Item) && appended_end < (int64_t)size)
+    {
+        X = reinterpret_cast<XML_Item*>(reinterpret_cast<char*>(doc) + appended_end);
+        if (s_CheckItem(X,this,nullptr,reinterpret_cast<const char*>(doc) + size,true,nullptr,0) == 0) break;
+        appended_end += X->length;
+        AA(appended_end);
+    }
     return true;
 }
 
@@ -867,7 +906,7 @@ std::ostream& operator<<(std::ostream& os, XB_reader& R)
 {
 //  os << "<!-- Content of file " << R.filename << ": -->\n";       
     
-    R.doc->getChildByName(XTNR_PAYLOAD)->getChildByIndex(0)->write(os,R,0);
+    if (R.data != nullptr) R.data->write(os,R,0);
 
     return os;
 }
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 3187dcd..dd83903 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -163,7 +163,7 @@ void Bin_src_plugin::s_OnBinParam2Stream(const char *param_name,int param_id,XML
 
     CTX->os << " " << param_name << "=\"";
     // void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
-    XBT_ToXMLStream(type,param_value,CTX->os);
+    XBT_ToXMLStream(type,param_value,CTX->os,true);
     CTX->os << "\"";
 }
 
@@ -172,14 +172,7 @@ void Bin_src_plugin::s_OnParam2Stream(const char *param_name,const char *param_v
     BIN_SRC_PLUGIN2STREAM_CONTEXT_t *CTX = reinterpret_cast<BIN_SRC_PLUGIN2STREAM_CONTEXT_t *>(userdata);
 
     CTX->os << " " << param_name << "=\"";
-    for(const char *c = param_value;*c != '\0';c++)
-    {
-        if (*c == '<') CTX->os << "&lt;";
-        else if (*c == '>') CTX->os << "&gt;";
-        else if (*c == '&') CTX->os << "&amp;";
-        else if (*c == '\"') CTX->os << "&quot;";
-        else CTX->os << *c;
-    }
+    if (param_value != nullptr) XBT_ToXMLStream(XBT_STRING,param_value,CTX->os,true);
     CTX->os << "\"";
 }
 
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index dd3aafe..a375853 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1279,7 +1279,8 @@ void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
     }
 }
 
-void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os)
+void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool attribute)
+// XML parser normalizes all unescaped white spaces in attributes to space and \r to \n everywhere
 {
     char buffer[4096+1];
     int offset = 0;
@@ -1294,6 +1295,9 @@ void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os)
             else if (buffer[i] == '>') os << "&gt;";
             else if (buffer[i] == '&') os << "&amp;";
             else if (buffer[i] == '\"') os << "&quot;";
+            else if (buffer[i] == '\r') os << "&#13;";
+            else if (buffer[i] == '\n' && attribute) os << "&#10;";
+            else if (buffer[i] == '\t' && attribute) os << "&#9;";
             else os << buffer[i];
         }
     }
-- 
2.43.0


From ce362093235e665c3a25f5b9e49bb48f48c63c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 42/85] fix: reader: getIntPtr returned the first value
 forever, getInt64Ptr of attribute returned its offset

---
 src/bin_xml.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index f31d7b5..2c6948e 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -159,7 +159,7 @@ const int64_t *XML_Param_Description::getInt64Ptr(const XML_Item *X) const
 {
     if (THIS_IS_NULL) return nullptr;
     if (X == nullptr) return nullptr;
-    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(&data);
+    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(reinterpret_cast<const char *>(X)+data);
     if (type == XBT_STRING) 
     {
         const char *p = reinterpret_cast<const char *>(X)+data;
@@ -463,7 +463,8 @@ const int32_t *XML_Item::getIntPtr() const
     else if (t == XBT_STRING)
     {
         if (p == nullptr) return nullptr;
-        static int32_t p_result = atoi(p);
+        static int32_t p_result;
+        p_result = atoi(p);
         return &p_result;
     }
     return nullptr;
-- 
2.43.0


From b0730351ee09b253270203453b331ece76c267e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 43/85] fix: xml: white space in text divided by comments was
 lost

---
 include/binary_xml/bin_xml_plugin.h |  3 +-
 src/bin_xml_plugin.cpp              | 65 +++++++++++++++--------------
 2 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/include/binary_xml/bin_xml_plugin.h b/include/binary_xml/bin_xml_plugin.h
index c380719..dfa9634 100644
--- a/include/binary_xml/bin_xml_plugin.h
+++ b/include/binary_xml/bin_xml_plugin.h
@@ -2,6 +2,7 @@
 
 #include <libxml/parser.h>
 #include <libxml/tree.h>
+#include <string>
 
 #include "bin_xml_creator.h"
 
@@ -11,7 +12,7 @@ class Bin_xml_plugin : public Bin_src_plugin // interface for xml input format
 protected:
     xmlDoc      *doc;
     xmlNode     *root_element;
-    xmlChar     *text; // value composed from more nodes
+    std::string  text; // value composed from more nodes
 
     void ForAllElements(OnElement_t on_element,const xmlNode *list,void *userdata);
     void ForAllElementsRecursively(OnElementRec_t on_element,const xmlNode *list,void *userdata,int deep);
diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index d2ac4ba..edfb549 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -10,7 +10,6 @@ Bin_xml_plugin::Bin_xml_plugin(const char *filename,Bin_xml_creator *bin_xml_cre
     LIBXML_TEST_VERSION;
     this->doc = nullptr;
     this->root_element = nullptr;
-    this->text = nullptr;
 }
 
 /*static void print_element_names(xmlNode * a_node)
@@ -31,11 +30,6 @@ Bin_xml_plugin::Bin_xml_plugin(const char *filename,Bin_xml_creator *bin_xml_cre
 
 Bin_xml_plugin::~Bin_xml_plugin()
 {
-    if (text != nullptr)
-    {
-        xmlFree(text);
-        text = nullptr;
-    }
     if (doc != nullptr) 
     {
         xmlFreeDoc(doc);
@@ -87,36 +81,44 @@ static const xmlNode *s_EntityContent(const xmlNode *X)
     return entity->children;
 }
 
-static bool s_HasElements(const xmlNode *list)
+static void s_DropBlank(std::string &text,size_t run_start)
+// blank text around elements is only formatting
 {
-    for(const xmlNode *X = list;X != nullptr;X = X->next)
-        if (X->type == XML_ELEMENT_NODE || s_HasElements(s_EntityContent(X))) return true;
-    return false;
+    for(size_t i = run_start;i < text.length();i++)
+        if (!isspace((unsigned char)text[i])) return;
+    text.resize(run_start);
 }
 
-static void s_AddText(xmlBuffer *buffer,const xmlNode *list,bool skip_blank)
+static bool s_AddText(std::string &text,const xmlNode *list,size_t &run_start)
+// text can be divided to more nodes by comments, CDATA sections, entities or children
+// run_start is position of text after the last element
+// returns true when there was an element
 {
+    bool has_elements = false;
     for(const xmlNode *X = list;X != nullptr;X = X->next)
     {
-        if (X->type == XML_ENTITY_REF_NODE)
-            s_AddText(buffer,s_EntityContent(X),skip_blank);
-        else if (X->type != XML_TEXT_NODE && X->type != XML_CDATA_SECTION_NODE)
-            continue;
-        else if (!skip_blank || !xmlIsBlankNode(X)) // blank is only formatting of children
-            xmlBufferCat(buffer,X->content);
+        if (X->type == XML_ELEMENT_NODE)
+        {
+            s_DropBlank(text,run_start);
+            run_start = text.length();
+            has_elements = true;
+        }
+        else if (X->type == XML_ENTITY_REF_NODE)
+        {
+            if (s_AddText(text,s_EntityContent(X),run_start)) has_elements = true;
+        }
+        else if ((X->type == XML_TEXT_NODE || X->type == XML_CDATA_SECTION_NODE) && X->content != nullptr)
+            text += reinterpret_cast<const char*>(X->content);
     }
+    return has_elements;
 }
 
-static xmlChar *s_GetText(const xmlNode *list,bool skip_blank)
-// text can be divided to more nodes by comments, CDATA sections, entities or children
+static void s_GetText(std::string &text,const xmlNode *list)
 {
-    xmlBuffer *buffer = xmlBufferCreate();
-    if (buffer == nullptr) return nullptr;
-    xmlBufferSetAllocationScheme(buffer,XML_BUFFER_ALLOC_DOUBLEIT);
-    s_AddText(buffer,list,skip_blank);
-    xmlChar *text = xmlBufferDetach(buffer);
-    xmlBufferFree(buffer);
-    return text;
+    size_t run_start = 0;
+    text.clear();
+    if (s_AddText(text,list,run_start))
+        s_DropBlank(text,run_start);
 }
 
 const char *Bin_xml_plugin::getNodeValue(void *element)
@@ -128,9 +130,8 @@ const char *Bin_xml_plugin::getNodeValue(void *element)
         value = reinterpret_cast<const char *>(X->children->content);
     else
     {
-        if (text != nullptr) xmlFree(text);
-        text = s_GetText(X->children,s_HasElements(X->children));
-        value = reinterpret_cast<const char *>(text);
+        s_GetText(text,X->children);
+        value = text.c_str();
     }
     if (value == nullptr) return nullptr;
 //  if (X->childcount > 0) // is there nonspace value?
@@ -208,9 +209,9 @@ void Bin_xml_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdat
             on_param(attr_name,reinterpret_cast<const char*>(A->children->content),element,userdata);
         else
         {
-            xmlChar *value = s_GetText(A->children,false);
-            on_param(attr_name,(value != nullptr ? reinterpret_cast<const char*>(value) : ""),element,userdata);
-            if (value != nullptr) xmlFree(value);
+            std::string value;
+            s_GetText(value,A->children);
+            on_param(attr_name,value.c_str(),element,userdata);
         }
     }
 }
-- 
2.43.0


From 4b85fab615af360a89059dab472cfa14718ac23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 44/85] fix: xml: & in names of namespaces stayed encoded, long
 prefixes were dropped

---
 src/bin_xml_plugin.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index edfb549..1446a51 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -177,6 +177,15 @@ void Bin_xml_plugin::ForAllElementsRecursively(OnElementRec_t on_element,const x
             ForAllElementsRecursively(on_element,s_EntityContent(X),userdata,deep);
 }
 
+static std::string s_NamespaceName(const xmlNs *N)
+// libxml2 keeps & in name of namespace encoded
+{
+    std::string href(N->href != nullptr ? reinterpret_cast<const char *>(N->href) : "");
+    for(size_t p = 0;(p = href.find("&#38;",p)) != std::string::npos;p++)
+        href.replace(p,5,"&");
+    return href;
+}
+
 void Bin_xml_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdata)
 {
     assert(on_param != nullptr);
@@ -185,25 +194,27 @@ void Bin_xml_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdat
 
     if (X->ns != nullptr)
     {   
-        on_param("xmlns",(X->ns->href != nullptr ? reinterpret_cast<const char *>(X->ns->href) : ""),element,userdata);
+        on_param("xmlns",s_NamespaceName(X->ns).c_str(),element,userdata);
     }
     else if (X->parent != nullptr && X->parent->type == XML_ELEMENT_NODE && X->parent->ns != nullptr)
         on_param("xmlns","",element,userdata); // namespace of parent is not inherited
 
-    char name[512];
+    std::string name;
     for(xmlNs *N = X->nsDef;N != nullptr;N = N->next)
     {
         if (N->prefix == nullptr) continue; // default namespace is stored by its usage
-        if (snprintf(name,sizeof(name),"xmlns:%s",N->prefix) >= (int)sizeof(name)) continue;
-        on_param(name,(N->href != nullptr ? reinterpret_cast<const char *>(N->href) : ""),element,userdata);
+        name = std::string("xmlns:") + reinterpret_cast<const char*>(N->prefix);
+        on_param(name.c_str(),s_NamespaceName(N).c_str(),element,userdata);
     }
 
     for(xmlAttr *A = X->properties;A != nullptr;A = A->next)
     {
         const char *attr_name = reinterpret_cast<const char*>(A->name);
-        if (A->ns != nullptr && A->ns->prefix != nullptr 
-            && snprintf(name,sizeof(name),"%s:%s",A->ns->prefix,A->name) < (int)sizeof(name))
-            attr_name = name;
+        if (A->ns != nullptr && A->ns->prefix != nullptr)
+        {
+            name = std::string(reinterpret_cast<const char*>(A->ns->prefix)) + ":" + attr_name;
+            attr_name = name.c_str();
+        }
 
         if (A->children != nullptr && A->children->type == XML_TEXT_NODE && A->children->next == nullptr)
             on_param(attr_name,reinterpret_cast<const char*>(A->children->content),element,userdata);
-- 
2.43.0


From 2c77bd7f8b77ad0140830bddf5b924fcdcd850e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 45/85] fix: date of the lowest day numbers overflowed and read
 outside of a table

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 2a60731..e71f9c8 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -650,7 +650,7 @@ char *UnixDate2Str(int32_t day_number,char *dst)
 
     int y400 = value / YEARS400_TO_DAYS;
     if (value % YEARS400_TO_DAYS < 0) y400--; // 1999 -> 1600..1999
-    value -= y400 * YEARS400_TO_DAYS;
+    value -= (int64_t)y400 * YEARS400_TO_DAYS;
 
 
     year += y400*400;
-- 
2.43.0


From c940b17127046b2edb280c63251465ac306b9c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 46/85] fix: unterminated text in a blob string was read beyond
 its end

---
 src/bin_xml_types.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index a375853..58b9bf3 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1013,8 +1013,9 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 len -= offset;
                 p += offset;
                 if (len <= 0) return 0; // finished
-                strncpy(dst,p,dst_size);
-                int out = strlen(dst);
+                const int out = MIN(len,dst_size); // text does not have to be terminated
+                memcpy(dst,p,out);
+                dst[out] = '\0';
                 offset += out;
                 return out;
             }
-- 
2.43.0


From f7ae5ecab030f915b71e494c3a672a81e8febade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 47/85] fix: unregistering a writable document damaged the list
 of the others

---
 src/bin_write_plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2faeee8..200c886 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2958,7 +2958,8 @@ bool BW_plugins::unregisterPlugin(BW_plugin *plugin)
     for(int i = 0;i < plugins_count;i++)
         if (plugins[i] == plugin)
         {   
-            memmove(plugins+i,plugins+i+1,--plugins_count - i);
+            plugins_count--;
+            memmove(plugins+i,plugins+i+1,(plugins_count - i) * sizeof(*plugins));
             return true;
         }
     return false;
-- 
2.43.0


From a9e809b8465169d9e47cba67c345646aabd8b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 48/85] fix: names of writable document with id above 127 were
 not found

---
 src/bin_write_plugin.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 200c886..57e271a 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1246,8 +1246,8 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
         { 
             const char *n = name;
             const char *start = p;
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = (uint8_t)*(p++);
+            id |= (uint8_t)*(p++) << 8;
     
             XML_Binary_Type element_type = static_cast<XML_Binary_Type>(*(p++));
 
@@ -1318,7 +1318,7 @@ const char *BW_symbol_table_16B::getName(BW_pool *pool,int search_id)
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = (uint8_t)p[0] | ((uint8_t)p[1] << 8);
 
             p += 3;
             if (id == search_id) return p; // found
@@ -1356,7 +1356,7 @@ XML_Binary_Type_Stored *BW_symbol_table_16B::getType(BW_pool *pool,int search_id
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = (uint8_t)p[0] | ((uint8_t)p[1] << 8);
 
             //XML_Binary_Type element_type = static_cast<XML_Binary_Type>(p[2]);
 
@@ -1400,8 +1400,8 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     int prev_id = -1;
     while (id <= max_id)
     {
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = (uint8_t)*(p++);
+            id |= (uint8_t)*(p++) << 8;
             if (id != prev_id+1) // don't go to other table
             {
                 LOG_ERROR("%s/%s correcting max_id: %d --> %d",pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,prev_id);
-- 
2.43.0


From 0636f83728b7c756ce92be55db3685088080b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 49/85] fix: registration of names of a writable document by id
 always failed

---
 src/bin_write_plugin.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 57e271a..75a92f7 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1437,6 +1437,12 @@ bool BW_symbol_table_16B::Open(BW_pool *pool)
 {
     ASSERT_NO_RET_FALSE(2100,pool != nullptr);
     int size = getNamesSize(pool);
+    if (size == 0) // no names yet, they will start at the end
+    {
+        index = 0;
+        names_offset = pool->allocator;
+        return true;
+    }
     if (index == 0 && names_offset + size == pool->allocator) return true; // no index means - it is opened
 // prepare new copy of symbol tables with open end
     LOG("%s(%s/%s) - opening symbol table (max_id=%d,size=%d,offset.old=%d,allocator=%d (should be %d)",
@@ -2047,6 +2053,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
 // name
     strcpy(dst,name);
     ROUND32UP(size);
+    dst -= sizeof(int16_t)+sizeof(XML_Binary_Type_Stored); // back to beginning
     ASSERT_NO_RET_FALSE(2115,dst+size == reinterpret_cast<char*>(pool)+pool->allocator);
     return true;
 }
-- 
2.43.0


From 4a48a20265579010b9f9e5d74f7f028cca65020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 50/85] fix: pool of a writable document did not grow for
 names, indexes and copied values

---
 src/bin_write_plugin.cpp | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 75a92f7..96a9f90 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1633,12 +1633,19 @@ const char *BW_pool::getDocTypeName()
     return filename;
 }
 
+static bool s_MakeSpace(BW_pool *pool,int size)
+// fd is inaccessible in BW_pool, growing is possible only via its plugin
+{
+    if ((int64_t)pool->allocator + size <= pool->allocator_limit) return true;
+    BW_plugin *plugin = plugins.getPlugin(pool);
+    return plugin != nullptr && plugin->makeSpace(size);
+}
+
 char*  BW_pool::allocate(int size)
 {
-    if (size <= 0) return 0;
+    if (size <= 0 || size > INT_MAX - 8) return 0;
     ROUND32UP(size);
-// memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
-    ASSERT_NO_RET_0(1080,allocator + size <= allocator_limit);
+    ASSERT_NO_RET_0(1080,s_MakeSpace(this,size));
 
     BW_offset_t offset = allocator;
     allocator += size;
@@ -1651,14 +1658,13 @@ char*  BW_pool::allocate(int size)
 
 char*           BW_pool::allocate8(int size)        // 64 bit aligned value
 {
-    if (size <= 0) return 0;
-    ROUND64UP(allocator);
+    if (size <= 0 || size > INT_MAX - 16) return 0;
     ROUND64UP(size);
-// memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
-    ASSERT_NO_RET_0(1942,allocator + size <= allocator_limit);
+    ASSERT_NO_RET_0(1942,s_MakeSpace(this,size+4)); // allocator can be moved to next aligned position
 
     BW_offset_t offset = allocator;
-    allocator += size;
+    ROUND64UP(offset);
+    allocator = offset + size;
 
     //MAXIMIZE(size,allocator);BUG!!
     memset(THIS+offset,0,size);
@@ -1677,15 +1683,7 @@ BW_element*     BW_pool::new_element(XML_Binary_Type type,int size)
     int align = XBT_Align(type);
     ASSERT_NO_RET_NULL(2068,align == 0 || align == 4 || align == 8);
     BW_element* result = reinterpret_cast<BW_element*>(align == 8 ? allocate8(sizeof(BW_element)+size2) : allocate(sizeof(BW_element)+size2));
-    if (result == nullptr) // need makeSpace
-    {
-        BW_plugin *plugin = plugins.getPlugin(this);
-        ASSERT_NO_RET_NULL(2012,plugin != nullptr);
-        ASSERT_NO_RET_NULL(2013,plugin->makeSpace(sizeof(BW_element)+size2));
-        result = reinterpret_cast<BW_element*>(align == 8 ? allocate8(sizeof(BW_element)+size2) : allocate(sizeof(BW_element)+size2));
-        ASSERT_NO_RET_NULL(2091,result != nullptr);
-        if (result == nullptr) return nullptr; // error message already shown in allocate
-    }
+    ASSERT_NO_RET_NULL(2091,result != nullptr); // limit of pool
     result->value_type = type;
     result->prev = result->next = result->offset = (reinterpret_cast<char*>(result) - reinterpret_cast<char*>(this));
 
@@ -1993,9 +1991,10 @@ bool BW_plugin::CheckExistingFile(int file_size)
 
 bool BW_plugin::makeSpace(int size)
 {
-    int new_size = ((pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
-    ASSERT_NO_RET_FALSE(1143,new_size <= (int)pool->mmap_size);
-    if (new_size <= (int)pool->file_size) return true; // no grow - ok
+    ASSERT_NO_RET_FALSE(1116,size >= 0);
+    const int64_t new_size = (((int64_t)pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
+    ASSERT_NO_RET_FALSE(1143,new_size <= (int64_t)pool->mmap_size);
+    if (new_size <= (int64_t)pool->file_size) return true; // no grow - ok
     if (ftruncate(fd,new_size) < 0)
     {
         ERRNO_SHOW(1144,"ftruncate",filename);
-- 
2.43.0


From 07abe87fc5e25ed5a96a8fc6f4bfffd977d3ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 51/85] fix: too big value of writable document overflowed its
 size

---
 include/binary_xml/bin_write_plugin.h |  2 +-
 src/bin_write_plugin.cpp              | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index a90ba00..fba7991 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -284,7 +284,7 @@ public:
     BW_pool*    getPool() { return pool; }
     int         getFd() { return fd; }
     bool        isInitialized() { return initialized;}
-    bool makeSpace(int size);
+    bool makeSpace(int64_t size);
 
     bool registerTag(int16_t id,const char *name,XML_Binary_Type type);
     bool registerAttr(int16_t id,const char *name,XML_Binary_Type type);
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 96a9f90..fe93d81 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1989,10 +1989,10 @@ bool BW_plugin::CheckExistingFile(int file_size)
 #endif
 }
 
-bool BW_plugin::makeSpace(int size)
+bool BW_plugin::makeSpace(int64_t size)
 {
-    ASSERT_NO_RET_FALSE(1116,size >= 0);
-    const int64_t new_size = (((int64_t)pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
+    ASSERT_NO_RET_FALSE(1116,size >= 0 && size <= INT_MAX);
+    const int64_t new_size = ((pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
     ASSERT_NO_RET_FALSE(1143,new_size <= (int64_t)pool->mmap_size);
     if (new_size <= (int64_t)pool->file_size) return true; // no grow - ok
     if (ftruncate(fd,new_size) < 0)
@@ -2393,7 +2393,7 @@ BW_element* BW_plugin::tagStr(int16_t id,const char *value)
     if (tag_type == XBT_VARIANT) tag_type = XBT_STRING;
 
     int value_len = strlen(value);
-    ASSERT_NO_RET_NULL(1146,makeSpace(BW2_INITIAL_FILE_SIZE+value_len*2));
+    ASSERT_NO_RET_NULL(1146,makeSpace(BW2_INITIAL_FILE_SIZE+(int64_t)value_len*2));
 
     BW_element* result = pool->new_element(tag_type,value_len);
     ASSERT_NO_RET_NULL(2041,result != nullptr);
@@ -2418,7 +2418,7 @@ BW_element* BW_plugin::tagBLOB(int16_t id,const void *value,int32_t size)
     XML_Binary_Type tag_type = pool->getTagType(id);
     ASSERT_NO_RET_NULL(1935,tag_type == XBT_BLOB || tag_type == XBT_VARIANT);
 
-    ASSERT_NO_RET_NULL(1955,makeSpace(BW2_INITIAL_FILE_SIZE+size+4));
+    ASSERT_NO_RET_NULL(1955,size >= 0 && makeSpace(BW2_INITIAL_FILE_SIZE+(int64_t)size+4));
 
     BW_element* result = pool->new_element(XBT_BLOB,size);
     ASSERT_NO_RET_NULL(2042,result != nullptr);
@@ -2438,7 +2438,7 @@ BW_element* BW_plugin::tagHEX(int16_t id,const void *value,int32_t size)
     XML_Binary_Type tag_type = pool->getTagType(id);
     ASSERT_NO_RET_NULL(2131,tag_type == XBT_HEX);
 
-    ASSERT_NO_RET_NULL(2132,makeSpace(BW2_INITIAL_FILE_SIZE+size+4));
+    ASSERT_NO_RET_NULL(2132,size >= 0 && makeSpace(BW2_INITIAL_FILE_SIZE+(int64_t)size+4));
 
     BW_element* result = pool->new_element(XBT_HEX,size);
     ASSERT_NO_RET_NULL(2133,result != nullptr);
-- 
2.43.0


From 59f3c079e9611df73910553db2df0dee9f8af158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 52/85] fix: setting of value in writable document returned
 deleted element and lost its content

---
 src/bin_write_plugin.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index fe93d81..1b5b4f3 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -165,6 +165,7 @@ BW_element* BW_element::replace(BW_element *old_value,BW_element *new_value)
 {
     if (THIS_IS_NULL) return nullptr; // no where to add
     if (old_value == nullptr) return nullptr; // failure
+    if (new_value == nullptr) return nullptr; // failure - new value was not created
 
     ASSERT_NO_RET_NULL(2016,new_value->next == new_value->offset);
     ASSERT_NO_RET_NULL(2017,new_value->prev == new_value->offset);
@@ -765,6 +766,15 @@ BW_element  *BW_element::tag(int16_t id) // find or create
     return target;
 }
 
+static void s_MoveContent(BW_element *from,BW_element *to)
+// element is replaced by its new version, only value is different
+{
+    if (to == nullptr) return;
+    to->first_child = from->first_child;
+    to->first_attribute = from->first_attribute;
+    from->first_child = from->first_attribute = 0;
+}
+
 BW_element  *BW_element::tagSetInt32(int16_t id,int32_t value)
 {
     if (THIS_IS_NULL) return nullptr;
@@ -786,7 +796,9 @@ BW_element  *BW_element::tagSetInt32(int16_t id,int32_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt32(id,value);
-            replace(target,new_item);
+            if (replace(target,new_item) == nullptr) return nullptr;
+            s_MoveContent(target,new_item);
+            target = new_item;
         }
          
     }
@@ -814,7 +826,9 @@ BW_element  *BW_element::tagSetInt64(int16_t id,int64_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt64(id,value);
-            replace(target,new_item);
+            if (replace(target,new_item) == nullptr) return nullptr;
+            s_MoveContent(target,new_item);
+            target = new_item;
         }
          
     }
@@ -847,7 +861,9 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
         if (to_replace)
         {
             BW_element *new_item = getPool()->tagString(id,value);
-            replace(target,new_item);
+            if (replace(target,new_item) == nullptr) return nullptr;
+            s_MoveContent(target,new_item);
+            target = new_item;
         }
          
     }
-- 
2.43.0


From dba8d7fdd054ff00044243851a511ac441a04e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 53/85] fix: null text set to element of writable document
 crashed

---
 src/bin_write_plugin.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 1b5b4f3..7558e3e 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -854,7 +854,7 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
             char *dst = reinterpret_cast<char*>(target+1);
             int target_size = strlen(dst);
             if (((value_len+1+3) >> 2) <= (target_size+1+3) >> 2)
-                strcpy(dst,value); // shorter or in the same allocation size
+                strcpy(dst,value != nullptr ? value : ""); // shorter or in the same allocation size
             else
                 to_replace = true;
         }
@@ -1769,7 +1769,7 @@ BW_element* BW_pool::tagString(int16_t id,const char *value)
     ASSERT_NO_RET_NULL(2037,result != nullptr);
     
     result->init(this,id,XBT_STRING,BIN_WRITE_ELEMENT_FLAG);
-    strcpy(reinterpret_cast<char*>(result+1),value);
+    strcpy(reinterpret_cast<char*>(result+1),value != nullptr ? value : "");
     return result;
 }
 
@@ -1795,7 +1795,8 @@ BW_element* BW_pool::tagSHA1(int16_t id,const uint8_t *value)
     
     result->init(this,id,XBT_SHA1,BIN_WRITE_ELEMENT_FLAG);
     
-    memcpy(result+1,value,20);
+    if (value != nullptr) // new element is zeroed
+        memcpy(result+1,value,20);
     return result;
 }
 
@@ -2408,6 +2409,7 @@ BW_element* BW_plugin::tagStr(int16_t id,const char *value)
     ASSERT_NO_RET_NULL(1127,tag_type == XBT_STRING || tag_type == XBT_VARIANT || tag_type == XBT_BLOB_STRING);
     if (tag_type == XBT_VARIANT) tag_type = XBT_STRING;
 
+    if (value == nullptr) value = "";
     int value_len = strlen(value);
     ASSERT_NO_RET_NULL(1146,makeSpace(BW2_INITIAL_FILE_SIZE+(int64_t)value_len*2));
 
-- 
2.43.0


From e1e14463cb8f44e11720b27cb6ac9f4b940c5f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 54/85] fix: setting of time in writable document overwrote the
 next element

---
 src/bin_write_plugin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 7558e3e..3e759eb 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -877,8 +877,8 @@ BW_element  *BW_element::tagSetTime(int16_t id,time_t value)
     BW_element *target = tagGet(id);
     if (target != nullptr)
     {
-        time_t *tm = reinterpret_cast<time_t*>(target+1);
-        *tm = value;
+        ASSERT_NO_RET_NULL(2143,target->value_type == XBT_UNIX_TIME);
+        *reinterpret_cast<uint32_t*>(target+1) = (uint32_t)value;
     }
     else
     {
-- 
2.43.0


From a93753cb51f0261a8833e2c60970a7325bc060be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 55/85] fix: time of writable document was read together with
 the next element

---
 include/binary_xml/bin_write_plugin.h | 2 +-
 src/bin_write_plugin.cpp              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index fba7991..f8df51e 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -220,7 +220,7 @@ public:
 
     int32_t     *getInt32();
     float       *getFloat();
-    time_t      *getTime();
+    uint32_t    *getTime(); // stored time has 32 bits only
     int64_t     *getInt64();
     uint64_t    *getUInt64();
     GUID_t      *getGUID();
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 3e759eb..844cc21 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -943,7 +943,7 @@ float *BW_element::getFloat()
 }
 
 
-time_t *BW_element::getTime()
+uint32_t *BW_element::getTime()
 {
     if (THIS_IS_NULL) return nullptr;
 
@@ -954,7 +954,7 @@ time_t *BW_element::getTime()
         return nullptr;
     }
 
-    return reinterpret_cast<time_t*>(this+1); // just after this element
+    return reinterpret_cast<uint32_t*>(this+1); // just after this element
 }
 
 int64_t *BW_element::getInt64()
-- 
2.43.0


From cbed706db425fb7eeec9317832d02353b0ba8acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 56/85] fix: value of element without value was accessed behind
 the element

---
 src/bin_write_plugin.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 844cc21..0dad7f6 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -917,7 +917,7 @@ int32_t *BW_element::getInt32()
     if (THIS_IS_NULL) return nullptr;
 
 //    BW_pool             *pool = getPool();    
-    XML_Binary_Type     attr_type = getSymbolType();
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol can be different
     if (!XBT_IS_4(attr_type))
     {
         LOG_ERROR("[1173] +%d %s'type = %d = %s but XBT_INT32 is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
@@ -932,7 +932,7 @@ float *BW_element::getFloat()
     if (THIS_IS_NULL) return nullptr;
 
 //    BW_pool             *pool = getPool();    
-    XML_Binary_Type     attr_type = getSymbolType();
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol can be different
     if (attr_type != XBT_FLOAT)
     {
         LOG_ERROR("[10430] +%d %s'type = %d = %s but XBT_FLOAT is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
@@ -947,7 +947,7 @@ uint32_t *BW_element::getTime()
 {
     if (THIS_IS_NULL) return nullptr;
 
-    XML_Binary_Type     attr_type = getSymbolType();
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol can be different
     if (attr_type != XBT_UNIX_TIME)
     {
         LOG_ERROR("[2122] +%d %s'type = %d = %s but XBT_UNIX_TIME is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
@@ -962,8 +962,8 @@ int64_t *BW_element::getInt64()
     if (THIS_IS_NULL) return nullptr;
 
 //    BW_pool             *pool = getPool();    
-    XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_INT64 && value_type != XBT_INT64 && value_type != XBT_UNIX_TIME64_MSEC)
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol can be different
+    if (attr_type != XBT_INT64 && attr_type != XBT_UNIX_TIME64_MSEC)
     {
         //ASSERT_NO_RET_NULL(2026,attr_type == XBT_INT64 || value_type == XBT_INT64);// || attr_type == XBT_VARIANT);
         LOG_ERROR("[2026] +%d %s'type = %d/%d = %s/%s but XBT_INT64/XBT_UNIX_TIME64_MSEC is expected!",
@@ -980,7 +980,7 @@ uint64_t *BW_element::getUInt64()
 {
     if (THIS_IS_NULL) return nullptr;
 
-    XML_Binary_Type     attr_type = getSymbolType();
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol can be different
     if (attr_type != XBT_UINT64)
     {
         LOG_ERROR("[2096] +%d %s'type = %d/%d = %s/%s but XBT_UINT64 is expected!",offset,getName(),
@@ -995,7 +995,7 @@ GUID_t *BW_element::getGUID()
 {
     if (THIS_IS_NULL) return nullptr;
 
-    XML_Binary_Type     attr_type = getSymbolType();
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol can be different
     if (attr_type != XBT_GUID)
     {
         LOG_ERROR("[10435] +%d %s'type = %d/%d = %s/%s but XBT_GUID is expected!",offset,getName(),
-- 
2.43.0


From 4a92b50842bb5dd485d4b3896ded5f63f17fcd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 57/85] fix: longer text set to element of writable document
 moved it and lost its children

---
 src/bin_write_plugin.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 0dad7f6..c2a88f8 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1051,7 +1051,7 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
         LOG_ERROR("%s/%s is not STRING but %s - cannot set value %s",parent->getName(),getName(),XBT2STR(value_type),value);
         return false;
     }
-    if (strcmp(data_ref.content,value) == 0) return false; // no change
+    if (strcmp(data_ref.content,value != nullptr ? value : "") == 0) return false; // no change
 
     int value_len = value != nullptr ? strlen(value) : 0;
 
@@ -1064,16 +1064,15 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
     }
     else // must reallocate and it is not so easy
     {
-        // remove and add
-        BW_offset_t _first_attribute = first_attribute;
-        first_attribute = 0; // disconnect children
+        BW_pool *pool = getPool();
+        BW_element *new_value = pool->new_element(static_cast<XML_Binary_Type>(value_type),value_len);
+        ASSERT_NO_RET_FALSE(2144,new_value != nullptr);
+        new_value->init(pool,identification,value_type,flags);
+        strcpy(new_value->getStr(),value);
 
-        parent->remove(this);
-
-        BW_element *new_value; 
-        parent->add(new_value = W->tagStr(identification,value));
-
-        new_value->first_attribute = _first_attribute;
+        // replacing on the same place with the same content
+        ASSERT_NO_RET_FALSE(2145,parent->replace(this,new_value) != nullptr);
+        s_MoveContent(this,new_value);
     }
     return true;
 }
-- 
2.43.0


From 35819c015a1f2d204dbe470f661d6b7bcba24216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 58/85] fix: search by text or blob parameter in writable
 document used bad size

---
 src/bin_write_plugin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index c2a88f8..dd4e809 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1117,8 +1117,8 @@ BW_element  *BW_element::findChildByParam(int16_t tag_id,int16_t attr_id,XML_Bin
                     if (attr->identification == attr_id) // ok, now I will know!
                     {
                     // I have value_type, data & data_size to compare with ...
-                        int cmp = XBT_Compare(static_cast<XML_Binary_Type>(attr->value_type),reinterpret_cast<void*>(attr+1),
-                                                XBT_Size2(static_cast<XML_Binary_Type>(attr->value_type),0),
+                        XML_Binary_Data_Ref attr_data = attr->getData();
+                        int cmp = XBT_Compare(attr_data.type,attr_data.content,attr_data.content_size,
                                               value_type,data,data_size);
                         if (cmp == 0)
                             return child;
-- 
2.43.0


From 792401f21d0766fc5e377bec534e214c38662f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 59/85] fix: element without attributes of writable document
 was read behind header of pool

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index dd4e809..7962b2e 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2874,6 +2874,7 @@ void BW_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdata)
     if (element == nullptr) return; // no attributes
 
     BW_element *E = reinterpret_cast<BW_element*>(element);
+    if (E->first_attribute == 0) return; // no attributes
     BW_element *child = BWE(E->first_attribute);
     for(;;)
     {
-- 
2.43.0


From 31001e5c1049579b44154feaf9e2f5795f2f6889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 60/85] fix: foreign file was overwritten or misread as a
 writable document

---
 src/bin_write_plugin.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 7962b2e..432bbc4 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1873,8 +1873,12 @@ bool BW_plugin::Initialize()
         ERRNO_SHOW(1099,"fstat",filename);
         return false;
     }
+    ASSERT_NO_RET_FALSE(1100,statbuf.st_size >= 0 && statbuf.st_size <= INT_MAX); // file should exist now
+    ASSERT_NO_RET_FALSE(2146,max_pool_size >= BW2_INITIAL_FILE_SIZE);
     int file_size = (int)statbuf.st_size;
-    ASSERT_NO_RET_FALSE(1100,file_size >= 0); // file should exist now
+    if (config_flags & BIN_WRITE_CFG_ALWAYS_CREATE_NEW) file_size = 0; // old content is not interesting
+    // file, which cannot be a pool, must not be changed
+    ASSERT_NO_RET_FALSE(2147,file_size == 0 || file_size >= (int)sizeof(*pool));
 
     for(int pass = 0;pass < 2;pass++)
     {
@@ -1890,12 +1894,13 @@ bool BW_plugin::Initialize()
                     fd, 0));
         if (pool == MAP_FAILED)
         {
+            this->pool = nullptr;
             ERRNO_SHOW(1049,"mmap",filename);
             return false;
         }
-        if (file_size < (int)sizeof(*pool)) file_size = 0; // too small - deleting
-        ASSERT_NO_RET_FALSE(1948,file_size == 0 || (int)pool->mmap_size >= file_size); // must be allocated for whole size
         if (file_size == 0) break; // was empty -> OK
+        ASSERT_NO_RET_FALSE(1953,strncmp(pool->binary_xml_write_type_info,"binary_xml.pksoft.org",sizeof(pool->binary_xml_write_type_info)) == 0);
+        ASSERT_NO_RET_FALSE(1948,pool->mmap_size <= INT_MAX && (int)pool->mmap_size >= (int)pool->file_size); // must be allocated for whole size
         if ((int)pool->mmap_size == max_pool_size) break; // correct size
         int new_pool_size = pool->mmap_size;
     
@@ -1975,7 +1980,6 @@ bool BW_plugin::InitEmptyFile()
 
 bool BW_plugin::CheckExistingFile(int file_size)
 {
-    ASSERT_NO_RET_FALSE(1953,strcmp(pool->binary_xml_write_type_info,"binary_xml.pksoft.org") == 0);
     ASSERT_NO_RET_FALSE(1954,pool->pool_format_version == BIN_WRITE_POOL_FORMAT_VERSION);
     ASSERT_NO_RET_FALSE(1943,(int)pool->file_size == file_size);
     ASSERT_NO_RET_FALSE(1944,(int)pool->mmap_size == max_pool_size); // !! must be the same !!
-- 
2.43.0


From 8e8564fbf461e608d0112e2fb20f66f1f0bbf107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 61/85] fix: writable document was lost when its writer was
 killed while the file grew

---
 src/bin_write_plugin.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 432bbc4..42737bf 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1981,9 +1981,10 @@ bool BW_plugin::InitEmptyFile()
 bool BW_plugin::CheckExistingFile(int file_size)
 {
     ASSERT_NO_RET_FALSE(1954,pool->pool_format_version == BIN_WRITE_POOL_FORMAT_VERSION);
-    ASSERT_NO_RET_FALSE(1943,(int)pool->file_size == file_size);
+    ASSERT_NO_RET_FALSE(1943,(int)pool->file_size >= (int)sizeof(*pool) && (int)pool->file_size <= file_size); // last grow need not be finished
     ASSERT_NO_RET_FALSE(1944,(int)pool->mmap_size == max_pool_size); // !! must be the same !!
-    ASSERT_NO_RET_FALSE(1945,pool->allocator_limit == (int)pool->file_size);
+    ASSERT_NO_RET_FALSE(1945,pool->allocator_limit <= (int)pool->file_size);
+    pool->allocator_limit = pool->file_size;
     ASSERT_NO_RET_FALSE(1946,pool->allocator >= (int)sizeof(*pool));
     ASSERT_NO_RET_FALSE(1947,pool->allocator <= pool->allocator_limit);
 
@@ -2021,7 +2022,7 @@ bool BW_plugin::makeSpace(int64_t size)
         return false;
     }
     pool->file_size = new_size;
-    pool->allocator_limit = new_size;
+    pool->allocator_limit = pool->file_size;
 
     this->file_size = new_size;
     return true;
-- 
2.43.0


From 70eb1c0e0ee5ecd0d648ac729ea6eda32c0274a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 62/85] fix: contradictory dictionary of writable document was
 accepted

---
 src/bin_write_plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 42737bf..93e29e5 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2268,8 +2268,9 @@ bool BW_plugin::allRegistered()
 {
     ASSERT_NO_RET_FALSE(1142,makeSpace(BW2_INITIAL_FILE_SIZE));
 //    BW_offset_t names_limit = pool->allocator;
+    if (check_only && check_failures > 0) return false; // some registrations are contradictory
     if (check_only && pool->tags.index != 0 && pool->params.index != 0)
-        return (check_failures == 0); // no problems?
+        return true; // no problems
 
     ASSERT_NO_RET_FALSE(1123,pool->tags.index != 0   || pool->makeTable(pool->tags));
     ASSERT_NO_RET_FALSE(1124,pool->params.index != 0 || pool->makeTable(pool->params));
-- 
2.43.0


From 4f1472476d573a22e300b4e588899b4b841b9caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 63/85] fix: clearing of writable document failed for some
 positions of its names

---
 src/bin_write_plugin.cpp | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 93e29e5..03351b7 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2341,33 +2341,17 @@ bool BW_plugin::Clear()
     // this is original situation
     int tags_size = pool->tags.getNamesSize(pool);
     int params_size = pool->params.getNamesSize(pool);
-    char *tags_src = (char*)BWE(pool->tags.names_offset);
-    char *params_src = (char*)BWE(pool->params.names_offset);
+    ASSERT_NO_RET_FALSE(2103,tags_size >= 0 && params_size >= 0);
+
+    // positions of old and new tables can overlap in any way
+    char *names = new char[tags_size + params_size];
+    memcpy(names,(char*)pool + pool->tags.names_offset,tags_size);
+    memcpy(names + tags_size,(char*)pool + pool->params.names_offset,params_size);
 
     // this is requested situation
-    char *tags_dst = reinterpret_cast<char*>(pool+1);
-    char *params_dst = tags_dst+tags_size;
-    // Is it possible to have situatiation, which cannot be solved by this code?
-    // -------[PARAMS----][TAGS------------]
-    // Yes - when between old params and new TAGS is not enough space for growth TAGS
+    memcpy(pool+1,names,tags_size + params_size);
+    delete [] names;
 
-    if (tags_src > tags_dst && tags_src < tags_dst + tags_size + params_size)
-    { // copy params to new place
-        char *params2_src = reinterpret_cast<char*>(pool->allocate(params_size));
-        ASSERT_NO_RET_FALSE(2103,params2_src);
-        memcpy(params2_src,params_src,params_size);
-        params_src = params2_src;
-    }
-    if (tags_src != tags_dst)
-    {
-        ASSERT_NO_RET_FALSE(2104,(tags_dst >= params_src + params_size) || (tags_dst + tags_size <= params_src));
-        memmove(tags_dst,tags_src,tags_size);
-    }
-    if (params_src != params_dst)
-    {
-        ASSERT_NO_RET_FALSE(2105,(params_dst >= tags_src + tags_size) || (params_dst + params_size <= tags_src));
-        memmove(params_dst,params_src,params_size);
-    }
     pool->tags.names_offset = sizeof(*pool);
     pool->tags.index = 0; // to be constructed
     pool->params.names_offset = sizeof(*pool)+tags_size;
-- 
2.43.0


From e1ddfeecd971ae4b3808298368ed96a467ecfe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 64/85] fix: elements with different names were considered to
 be equal by keys

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 03351b7..34f0008 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1183,6 +1183,7 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
 // when some element miss, it should return false
 {
     if (src == nullptr) return false;
+    if (identification != (int16_t)src->name) return false; // other element
 
     // I must remember all processed keys
     int checked_params[MAX_PARAM_KEYS];
-- 
2.43.0


From f0438c8d87d2a7955c76f228c3260baae1aa39ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 65/85] fix: copy from binary file to writable document could
 be silently incomplete

---
 src/bin_write_plugin.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 34f0008..0de3a2c 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2770,11 +2770,13 @@ BW_element*     BW_plugin::CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src)
         XML_Param_Description *PD = src->getParamByIndex(i);
         ASSERT_NO_RET_NULL(1984,dst->attrCopy(xb,src,PD) == dst);
     }
-    for(int i = 0;i < src->childcount;i++)
+    for(int i = 0;;)
     {
-        XML_Item *child = src->getChildByIndex(i);
+        XML_Item *child = src->getNextChild(xb,i);
+        if (child == nullptr) break;
         XML_Binary_Data_Ref data = child->getData();
         BW_element *child2 = CopyAll(tagData(child->name,data),xb,child);
+        ASSERT_NO_RET_NULL(2148,child2 != nullptr);
         dst->add(child2);
     }
     return dst;
-- 
2.43.0


From 8ebe702064caf7c9fdafd70ad0a5f26b60e6847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 66/85] fix: value of the last copied element of path was lost

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 23 +++++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index f8df51e..5aec4b0 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -331,6 +331,7 @@ public: // tag creation
     BW_element*     CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src);
 private:
     BW_element*     CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap);
+    BW_element*     CopyNode_(XML_Item *src,bool with_value);
 public: // Bin_src_plugin
     virtual void *getRoot();
     virtual const char *getNodeName(void *element);
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 0de3a2c..d1d1222 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2664,6 +2664,13 @@ BW_element* BW_plugin::CopyPathOnly(XB_reader &xb,XML_Item *root,...)
     return result;
 }
 
+BW_element* BW_plugin::CopyNode_(XML_Item *src,bool with_value)
+{
+    if (!with_value) return tag(src->name);
+    XML_Binary_Data_Ref data = src->getData();
+    return tagData(src->name,data);
+}
+
 BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap)
 {
 // source root
@@ -2673,9 +2680,12 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
 // destination root
     BW_element* root2;
     bool copy;
+    XML_Item *element = va_arg(ap,XML_Item *); // nullptr -> root is the last one
     if (pool->root == 0) // no root element -> create one
     {
-        setRoot(root2 = tag(root->name));
+        root2 = CopyNode_(root,copy_whole_last_node && element == nullptr);
+        ASSERT_NO_RET_NULL(2149,root2 != nullptr);
+        setRoot(root2);
         copy = true;
     }
     else
@@ -2688,7 +2698,9 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
             if (root2->first_child == 0)
             {
                 // content encapsulated in <transaction>
-                root2->first_child = tag(root->name)->offset;
+                BW_element *root3 = CopyNode_(root,copy_whole_last_node && element == nullptr);
+                ASSERT_NO_RET_NULL(2150,root3 != nullptr);
+                root2->first_child = root3->offset;
                 copy = true;
             }
             root2 = BWE(root2->first_child);
@@ -2710,7 +2722,6 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
 
     for(;;)
     {
-        XML_Item *element = va_arg(ap,XML_Item *);
         if (element == nullptr) 
         {
             // Recursive copy of last element
@@ -2725,6 +2736,7 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
         }
         if (copy) ASSERT_NO_RET_NULL(1994,dst->CopyKeys(xb,src) != nullptr);
     //---------------------------------------------------------------------------------------------
+        XML_Item *next_element = va_arg(ap,XML_Item *);
         BW_element *element2 = nullptr;
         // 1. Find element in dst
         if (dst->first_child != 0)
@@ -2744,12 +2756,15 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
         // 2. Create if missing
         if (element2 == nullptr)
         {
-            dst->add(element2 = tag(element->name));
+            element2 = CopyNode_(element,copy_whole_last_node && next_element == nullptr);
+            ASSERT_NO_RET_NULL(2151,element2 != nullptr);
+            dst->add(element2);
             copy = true;
         }
         else copy = false;
         src = element;
         dst = element2;
+        element = next_element;
     }
 //-----------
 
-- 
2.43.0


From 094c761486d352b2a80650d56601e0aa7e036968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 67/85] fix: replacing of the only element of list broke the
 list

---
 src/bin_write_plugin.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index d1d1222..2e47f26 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -171,11 +171,14 @@ BW_element* BW_element::replace(BW_element *old_value,BW_element *new_value)
     ASSERT_NO_RET_NULL(2017,new_value->prev == new_value->offset);
     ASSERT_NO_RET_NULL(2018,new_value->getPool() == old_value->getPool());
 
-    new_value->next = old_value->next;
-    new_value->prev = old_value->prev;
+    if (old_value->next != old_value->offset) // the only one has no neighbours
+    {
+        new_value->next = old_value->next;
+        new_value->prev = old_value->prev;
 
-    BWE(new_value->next)->prev = new_value->offset;
-    BWE(new_value->prev)->next = new_value->offset;
+        BWE(new_value->next)->prev = new_value->offset;
+        BWE(new_value->prev)->next = new_value->offset;
+    }
     
     old_value->flags |= BIN_DELETED;
     old_value->next = old_value->prev = old_value->offset;
-- 
2.43.0


From 6b2445308fd821b6839fd2fc1c88e2ad706c9787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 68/85] fix: refusing of foreign file as writable document
 could crash in its report

---
 src/bin_write_plugin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2e47f26..86598bc 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1634,7 +1634,9 @@ const char *BW_pool::getDocTypeName()
 //    {
 //        return doc_type_name;
 //    }
-    if (root > getPoolSize() && root < allocator)
+    BW_plugin *plugin = plugins.getPlugin(this);
+    const bool is_checked = plugin == nullptr || plugin->isInitialized(); // content of file being opened cannot be trusted yet
+    if (is_checked && root > getPoolSize() && root < allocator)
     {
         BW_element *root = BWE(this->root);   
         ASSERT_NO_RET_(2114,root->flags & BIN_WRITE_ELEMENT_FLAG,"(bad root flags)");
@@ -1643,7 +1645,6 @@ const char *BW_pool::getDocTypeName()
     }
 // OK, no root name - so some early stage
    
-    BW_plugin *plugin = plugins.getPlugin(this);
     if (plugin == nullptr) return "(no plugin for pool)";
     const char *filename = plugin->getFilename();
     if (filename == nullptr) return "(no filename in plugin)";
-- 
2.43.0


From d1b423a290f8ea4272bb4aaaafa66731f8a8c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 69/85] fix: name refused for lack of space stayed counted in
 dictionary of writable document

---
 src/bin_write_plugin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 86598bc..31a921d 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2062,13 +2062,13 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
     if (pool->tags.names_offset == 0) // empty
         pool->tags.names_offset = pool->allocator;
 
-    MAXIMIZE(pool->tags.max_id,id);
     int len = strlen(name);
 
 // allocation
     int size = sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1;
     char *dst = pool->allocate(size); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1121,dst != 0);
+    MAXIMIZE(pool->tags.max_id,id);
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2112,12 +2112,12 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
     if (pool->params.names_offset == 0)
         pool->params.names_offset = pool->allocator;
 
-    MAXIMIZE(pool->params.max_id,id);
     int len = strlen(name);
 
 // allocation
     char *dst = pool->allocate(sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1122,dst != 0);
+    MAXIMIZE(pool->params.max_id,id);
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
-- 
2.43.0


From f3c86e0c3e478d0871f8311547c2d87f59b6b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 70/85] fix: text of BLOB_STRING elements is kept when a
 writable document is converted to .xb

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 31a921d..a1ade53 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2828,7 +2828,7 @@ const char *BW_plugin::getNodeBinValue(void *element,XML_Binary_Type &type,int &
     BW_element *E = reinterpret_cast<BW_element*>(element);
     type = static_cast<XML_Binary_Type>(E->value_type);
     
-    if (type == XBT_BLOB || type == XBT_HEX)
+    if (XBT_IS_VARSIZE(type))
         size = *reinterpret_cast<int32_t*>(E+1);
     else if (type == XBT_STRING)
         size = strlen(reinterpret_cast<char*>(E+1));
-- 
2.43.0


From 4eb112f5f8a6fac54dee22e98d8af351c5cd740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 71/85] fix: converting to writable document failed or lost
 values which differ from common type, ran out of space, ignored failures

---
 include/binary_xml/bin_xml_creator.h |   1 +
 src/bin_xml_creator.cpp              | 111 ++++++++++++++++++---------
 2 files changed, 77 insertions(+), 35 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index f9fd149..920ac24 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -139,6 +139,7 @@ protected:
                 static void XStoreChildrenEvent(void *element,void *userdata);
 
                 static void XStore2XBWEvent(void *element,void *userdata);
+                static void XBWStoreBinParamsEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
                 static void XBWStoreParamsEvent(const char *param_name,const char *param_value,void *element,void *userdata);
                 static void XBWStoreChildrenEvent(void *element,void *userdata);
             const char *WriteNode(char **_wp,void *element);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index dd83903..6dc8323 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -673,6 +673,7 @@ struct MakingXBW_1node
     BW_element      *dst_bw_element;
     const char      *param_name;
     const char      *param_value;
+    XML_Binary_Type param_type;     // XBT_UNKNOWN = text in param_value
 };
 
 bool Bin_xml_creator::Make_xbw()
@@ -713,15 +714,21 @@ bool Bin_xml_creator::Make_xbw()
 
     // 3.1 create
     //BW_plugin(const char *filename = nullptr,Bin_xml_creator *bin_xml_creator = nullptr,int max_pool_size = 0x20000,uint32_t config_flags = 0);
-    BW_plugin W(dst,nullptr,MAX(0x40000,((src->getFileSize() >> 12)+1) << 16),BIN_WRITE_CFG_ALWAYS_CREATE_NEW); // 16*more - rounded up to 64kB blocks - should not grow!
+    int64_t pool_size = 0x10000 + this->data_size_needed; // upper limit of space for values is also limit of their elements
+    for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
+        for(int i = 0;i < symbol_count[t];i++)
+            pool_size += 16 + strlen(symbol_table[t][i]);
+    pool_size = MAX((pool_size + 0xfff) & ~(int64_t)0xfff,MAX((int64_t)0x40000,(((int64_t)src->getFileSize() >> 12)+1) << 16)); // 16*more - rounded up to 64kB blocks - should not grow!
+    ASSERT_NO_RET_FALSE(2075,pool_size <= 0x7ffff000);
+    BW_plugin W(dst,nullptr,pool_size,BIN_WRITE_CFG_ALWAYS_CREATE_NEW);
     // 3.2 initialize
     ASSERT_NO_RET_FALSE(2053,W.Initialize());
     // 3.3 tags
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_NODES];i++)
-        W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i]));
+        if (!W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i]))) return false;
     // 3.4 attrs
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_PARAMS];i++)
-        W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i]));
+        if (!W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i]))) return false;
     // 3.5 symbols done
     ASSERT_NO_RET_FALSE(2054,W.allRegistered());
 
@@ -733,10 +740,13 @@ bool Bin_xml_creator::Make_xbw()
     node_info.dst_bw_element = nullptr;
     node_info.param_name = nullptr;
     node_info.param_value = nullptr;
+    node_info.param_type = XBT_UNKNOWN;
 
     XStore2XBWEvent(root,&node_info);
     ASSERT_NO_RET_FALSE(2059,node_info.dst_bw_element != nullptr);
+    if (write_failed) return false; // incomplete document has no root
     W.setRoot(node_info.dst_bw_element);
+    ASSERT_NO_RET_FALSE(2076,W.getRoot() != nullptr);
 //typedef void (*OnElement_t)(void *element,void *userdata);
 
 
@@ -1112,6 +1122,7 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
 
     Bin_xml_creator  *_this = node_info->creator;
     ASSERT_NO_RET(2065,_this != nullptr);
+    if (_this->write_failed) return;
     BW_plugin        *bw = node_info->bw;
     ASSERT_NO_RET(2066,bw != nullptr);
     BW_pool         *pool = bw->getPool();
@@ -1120,43 +1131,52 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     int id;
     int flags = 0;
     SymbolTableTypes st_type;
+    const char *name;
     const char *value; 
-    XML_Binary_Type tag_type;
+    XML_Binary_Type tag_type = XBT_UNKNOWN;
     int value_size = 0;
-    bool from_text = false;
     if (node_info->param_name != nullptr)
     {
-        id = _this->Find(node_info->param_name,SYMBOL_TABLE_PARAMS); // SLOW
-        ASSERT_NO_RET(2134,id >= 0);
+        name = node_info->param_name;
         st_type = SYMBOL_TABLE_PARAMS;
         flags = BIN_WRITE_ATTR_FLAG;
         value = node_info->param_value;
-        // TODO: prepare binary parameter support
-        from_text = true;
+        tag_type = node_info->param_type;
         //printf("\t.%s = %s",node_info->param_name,node_info->param_value);
     }
     else
     {
-        const char *node_name = _this->src->getNodeName(element);
-        ASSERT_NO_RET(2072,node_name != nullptr);
+        name = _this->src->getNodeName(element);
 
         //printf("%s (%s)",node_name,pool->binary_xml_write_type_info);
 
-        id = _this->Find(node_name,SYMBOL_TABLE_NODES); // SLOW
-        ASSERT_NO_RET(2056,id >= 0);
         st_type = SYMBOL_TABLE_NODES;
         flags = BIN_WRITE_ELEMENT_FLAG;
         value = _this->src->getNodeBinValue(element,tag_type,value_size);    // binary value referenced
-        if (value == nullptr)
-        {
+        if (tag_type == XBT_UNKNOWN) // getNodeBinValue not supported
             value = _this->src->getNodeValue(element);
-            from_text = true;
-        }
+    }
+    id = _this->Find(name,st_type); // SLOW
+    if (id < 0 && (st_type != SYMBOL_TABLE_NODES || id != XTNR_ET_TECERA))
+    {
+        LOG_ERROR("[A2056] name '%s' is not in symbol table",name != nullptr ? name : "");
+        _this->write_failed = true;
+        return;
     }
 
+    bool from_text = tag_type == XBT_UNKNOWN;
     if (from_text) // text analyse solution when binary is not available
     {
-        tag_type = static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]);
+        if (id >= 0)
+            tag_type = static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]);
+        if (value == nullptr || *value == '\0')
+            tag_type = XBT_NULL; // no value
+        else if (tag_type == XBT_UNKNOWN || !XBT_KeepsText(value,tag_type))
+            tag_type = XBT_Detect(value); // common type of all values can have different text of this value
+    }
+    else if (value == nullptr)
+        tag_type = XBT_NULL; // no value
+
     // THIS IS BAD: I have value in string but need size of this value as binary value
     // and this size can be obtained by decoding string. But decoding string is work and
     // if size of result is only result, it is waste of CPU time.
@@ -1169,30 +1189,44 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     
     // NOW SLOW but SAFE solution
     // 1st pass - detecting real size
-        int size = XBT_SizeFromString(value,tag_type); // TODO: not finished BLOB detection!!!
-        int size2 = XBT_Size2(tag_type,size);
-        //int align = XBT_Align(tag_type);
-        
-        ASSERT_NO_EXIT_1(2069,bw->makeSpace(sizeof(BW_element)+size2+8/*max align*/));    // this is faster, as I know, where plugin is
-
-        BW_element *dst = node_info->dst_bw_element = pool->new_element(tag_type,size);
-        //printf("... %p[%d] (%d)\n",dst,size,dst->offset);
-        ASSERT_NO_EXIT_1(2074,dst != nullptr);
-        dst->identification = id;
-        dst->flags = flags;; // element and not attribute
+    int size = 0;
+    if (from_text)
+        size = XBT_SizeFromString(value,tag_type); // TODO: not finished BLOB detection!!!
+    else if (tag_type == XBT_STRING)
+        size = strlen(value);
+    else if (tag_type == XBT_BLOB_STRING)
+        size = strnlen(value+sizeof(int32_t),*reinterpret_cast<const int32_t*>(value)); // new element has its own spare space
+    else if (XBT_IS_VARSIZE(tag_type))
+        size = *reinterpret_cast<const int32_t*>(value);
+    int size2 = XBT_Size2(tag_type,size);
+    //int align = XBT_Align(tag_type);
+    
+    BW_element *dst = nullptr;
+    if (bw->makeSpace(sizeof(BW_element)+size2+8/*max align*/))    // this is faster, as I know, where plugin is
+        dst = pool->new_element(tag_type,size);
+    ASSERT_NO_(2074,dst != nullptr,_this->write_failed = true;return);
+    node_info->dst_bw_element = dst;
+    //printf("... %p[%d] (%d)\n",dst,size,dst->offset);
+    dst->identification = id;
+    dst->flags = flags; // element and not attribute
+    if (from_text)
+    {
     // bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit);
         char *wp = reinterpret_cast<char*>(dst+1);
         char *limit = wp + size2;
-        ASSERT_NO_EXIT_1(2062,XBT_FromString(value,tag_type,&wp,limit));
-    }
-    else
-    { // xbw2xbw variant
+        ASSERT_NO_(2062,tag_type == XBT_NULL || XBT_FromString(value,tag_type,&wp,limit),_this->write_failed = true;return);
     }
+    else if (tag_type == XBT_STRING)
+        strcpy(reinterpret_cast<char*>(dst+1),value);
+    else if (tag_type == XBT_BLOB_STRING)
+        memcpy(reinterpret_cast<char*>(dst+1)+sizeof(int32_t),value+sizeof(int32_t),size);
+    else if (tag_type != XBT_NULL)
+        memcpy(dst+1,value,size2);
 //-----------------------------------------------
     if (st_type == SYMBOL_TABLE_NODES) 
     {
-        //    if (!src->ForAllBinParams(XStoreBinParamsEvent,element,&xstore_data))
-        _this->src->ForAllParams(XBWStoreParamsEvent,element,userdata);
+        if (!_this->src->ForAllBinParams(XBWStoreBinParamsEvent,element,userdata))
+            _this->src->ForAllParams(XBWStoreParamsEvent,element,userdata);
         _this->src->ForAllChildren(XBWStoreChildrenEvent,element,userdata);
     }
     // node_info->dst_bw_element =  
@@ -1211,6 +1245,13 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     
 }
 
+void Bin_xml_creator::XBWStoreBinParamsEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata)
+{
+    MakingXBW_1node node_info = *reinterpret_cast<MakingXBW_1node*>(userdata);
+    node_info.param_type = type;
+    XBWStoreParamsEvent(param_name,param_value,element,&node_info);
+}
+
 void Bin_xml_creator::XBWStoreParamsEvent(const char *param_name,const char *param_value,void *element,void *userdata)
 {
     MakingXBW_1node *node_info = reinterpret_cast<MakingXBW_1node*>(userdata);
-- 
2.43.0


From bb578152097fb46627967f9c610b4028806d5bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 72/85] fix: JSON document could not be converted to writable
 document, because its root has no name

---
 src/bin_write_plugin.cpp | 2 +-
 src/bin_xml_creator.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index a1ade53..9a177a0 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2811,7 +2811,7 @@ const char *BW_plugin::getNodeName(void *element)
     ASSERT_NO_RET_NULL(1150,reinterpret_cast<char*>(E) - reinterpret_cast<char*>(pool) + sizeof(BW_element) <= pool->file_size);
 
     if (E->flags & BIN_WRITE_ELEMENT_FLAG) // TAG
-        return pool->getTagName(E->identification);
+        return E->identification == XTNR_NULL ? nullptr : pool->getTagName(E->identification); // root of JSON has no name
     else    // PARAM
         return pool->getAttrName(E->identification);
 }
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 6dc8323..335817f 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1157,7 +1157,7 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
             value = _this->src->getNodeValue(element);
     }
     id = _this->Find(name,st_type); // SLOW
-    if (id < 0 && (st_type != SYMBOL_TABLE_NODES || id != XTNR_ET_TECERA))
+    if (id < 0 && (st_type != SYMBOL_TABLE_NODES || (id != XTNR_ET_TECERA && name != nullptr))) // root of JSON has no name
     {
         LOG_ERROR("[A2056] name '%s' is not in symbol table",name != nullptr ? name : "");
         _this->write_failed = true;
-- 
2.43.0


From e91a39a423a557c55d8acbe1cfb5d7b34440c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 73/85] fix: printing of XML and JSON source documents lost all
 texts and stopped at element without name

---
 src/bin_xml_creator.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 335817f..beaa40b 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -176,6 +176,11 @@ void Bin_src_plugin::s_OnParam2Stream(const char *param_name,const char *param_v
     CTX->os << "\"";
 }
 
+static const char *s_ShownName(const char *name)
+{
+    return name != nullptr ? name : "NULL"; // the same as in XB_reader
+}
+
 // typedef void (*OnElementRec_t)(void *element,void *userdata,int deep);
 void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
 {
@@ -191,7 +196,7 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
     for(int t = 0;t < deep;t++) CTX->os << "\t";
 
 
-    CTX->os << "<" << CTX->src->getNodeName(element);
+    CTX->os << "<" << s_ShownName(CTX->src->getNodeName(element));
     // bool ForAllBinParams(OnBinParam_t on_param,void *element,void *userdata)
     if (!CTX->src->ForAllBinParams(s_OnBinParam2Stream,element,userdata))
     {
@@ -210,15 +215,20 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
     XML_Binary_Type value_type;
     int value_size = 0;
     const char *value = CTX->src->getNodeBinValue(element,value_type,value_size);    // binary value referenced
+    if (value_type == XBT_UNKNOWN) // getNodeBinValue not supported
+    {
+        value = CTX->src->getNodeValue(element);
+        value_type = value != nullptr && *value != '\0' ? XBT_STRING : XBT_NULL;
+    }
 
     if (CTX->sibling_count == 0) 
-        if (value == nullptr) CTX->os << "/>\n";
+        if (value == nullptr || value_type == XBT_NULL) CTX->os << "/>\n";
         else
         {
             CTX->os << ">";
             // void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
             XBT_ToXMLStream(value_type,value,CTX->os);
-            CTX->os << "</" << CTX->src->getNodeName(element) << ">\n";
+            CTX->os << "</" << s_ShownName(CTX->src->getNodeName(element)) << ">\n";
         }
     else
     {
@@ -230,7 +240,7 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
             CTX->os << "\n";    
         }
         for(int t = 0;t < deep;t++) CTX->os << "\t";
-        CTX->os << "</" << CTX->src->getNodeName(element) << ">\n";
+        CTX->os << "</" << s_ShownName(CTX->src->getNodeName(element)) << ">\n";
     }
 
 //-----------------------------------------------------------------------------------
-- 
2.43.0


From ddfdce0c163e58812d62efc9eeeb47a02e782904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 74/85] fix: WriteToFile left file open when writing of text
 failed

---
 src/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index e71f9c8..89c1a17 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -29,6 +29,8 @@ bool WriteToFile(const char *filename,const char *fmt,...)
     if (ok < 0)
     {
         ERRNO_SHOW(1008,"WriteToFile-fprintf",fmt);
+        va_end(ap);
+        fclose(f);
         return false;
     }
 
-- 
2.43.0


From 546f10abfcf41dbb14aba46ae211b22c466dc6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 75/85] fix: force_directory reported success when part of path
 exists and is not directory

---
 src/files.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/files.cpp b/src/files.cpp
index d7521f6..8025877 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -30,7 +30,12 @@ bool force_directory(const char *directory, mode_t mode)
 //          D(std::cout << "Dbg: " << directory_part << "\n");
     
             if (err == 0) continue;// ok - created
-            if (errno == EEXIST) continue;// ok - already exists
+            struct stat info;
+            if (errno == EEXIST && stat(directory_part,&info) == 0)
+            {
+                if (S_ISDIR(info.st_mode)) continue;// ok - already exists
+                errno = ENOTDIR;
+            }
         
             ERRNO_SHOW(1009,"mkdir",directory_part);
             return false;
-- 
2.43.0


From 6171b87aa52cfe20cc171b2db143807833febadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 76/85] fix: text converted by tagData and attrData was stored
 on stack, long text crashed program

---
 src/bin_write_plugin.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 9a177a0..d11d37c 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -9,6 +9,7 @@
 #include <stdio.h>     // perror
 #include <unistd.h>    // close,fstat
 #include <stdarg.h>    // va_start ..
+#include <memory>      // unique_ptr
 #include "assert.h"
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -635,7 +636,8 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
     { // default conversion
         // this is not so easy
         // I must know the size of target representation before I start
-        char *buffer = reinterpret_cast<char*>(alloca(data.size+64)); // binary representation should fit into it's string representation size
+        std::unique_ptr<char[]> buffer_owner(new char[data.size+64]); // binary representation should fit into it's string representation size
+        char *buffer = buffer_owner.get();
         char *p = buffer;
         //bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         ASSERT_NO_RET_NULL(1995,XBT_FromString(data.data,attr_type,&p,buffer+data.size+64));
@@ -2628,10 +2630,12 @@ BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
         return tag(id);
 
     XML_Binary_Type tag_type = pool->getTagType(id);
+    std::unique_ptr<char[]> buffer_owner;
     if (tag_type != data.type)
     {
         ASSERT_NO_RET_NULL(2001,data.type == XBT_STRING); // only supported conversion
-        char *buffer = reinterpret_cast<char*>(alloca(data.size+64));
+        buffer_owner.reset(new char[data.size+64]);
+        char *buffer = buffer_owner.get();
         char *p = buffer;
         char *p_limit = buffer + data.size + 64;
         // bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
-- 
2.43.0


From 0b791a4a599b86d562e8c863cb7d9fc0d7eeeac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 77/85] fix: tagData left pointer to its own buffer in data of
 caller

---
 src/bin_write_plugin.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index d11d37c..0d686d5 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2631,6 +2631,8 @@ BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
 
     XML_Binary_Type tag_type = pool->getTagType(id);
     std::unique_ptr<char[]> buffer_owner;
+    const char *src = data.data;
+    int size = data.size;
     if (tag_type != data.type)
     {
         ASSERT_NO_RET_NULL(2001,data.type == XBT_STRING); // only supported conversion
@@ -2640,15 +2642,15 @@ BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
         char *p_limit = buffer + data.size + 64;
         // bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         ASSERT_NO_RET_NULL(2004,XBT_FromString(data.data,tag_type,&p,p_limit));
-        data.data = buffer;
-        data.size = p - buffer;
+        src = buffer;
+        size = p - buffer;
     }
 
-    BW_element* result = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
+    BW_element* result = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+size));
     if (result == nullptr) return nullptr; // error message already shown in allocate
     result->init(pool,id,tag_type,BIN_WRITE_ELEMENT_FLAG);
     
-    memcpy(result+1,data.data,data.size); // copy content
+    memcpy(result+1,src,size); // copy content
     
     return result;
 }
-- 
2.43.0


From 5529c499c61227cd9b398822d336626f73622494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 78/85] fix: scan_dir reported failure when callback stopped it
 with errno set and did not close directory after error

---
 src/files.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index 8025877..589c132 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -126,11 +126,16 @@ bool scan_dir(const char *base_dir,void *userdata,on_file_event on_file)
         ERRNO_SHOW(1101,"opendir",base_dir);
         return false;
     }
+    int read_error = 0;
     for(;;)
     {
         errno = 0;
         struct dirent *dirent = readdir(dir);
-        if (dirent == nullptr) break;
+        if (dirent == nullptr)
+        {
+            read_error = errno; // 0 means end of directory
+            break;
+        }
 
         // typedef bool (*on_file_event)(const char *directory,const char *filename,void *username,uint8_t d_type);
         if (dirent->d_name[0] == '.')
@@ -166,9 +171,11 @@ bool scan_dir(const char *base_dir,void *userdata,on_file_event on_file)
                 break;
         }*/
     }
-    if (errno != 0)
+    if (read_error != 0)
     {
+        errno = read_error;
         ERRNO_SHOW(1102,"readdir",base_dir);
+        closedir(dir);
         return false;
     }
     if (closedir(dir) != 0)
-- 
2.43.0


From d47b29a8a50f76240b9a413beba9be64780c8a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 79/85] fix: XBT_Equal used stack for whole text and crashed
 with long ones

---
 src/bin_xml_types.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 58b9bf3..f6afcce 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -3,6 +3,7 @@
 #include <binary_xml/utils.h>
 #include <binary_xml/bin_xml.h>
 #include <assert.h>
+#include <memory>
 
 namespace pklib_xml
 {
@@ -1306,11 +1307,13 @@ void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool
 
 bool XBT_Equal(XML_Binary_Data_Ref A,XML_Binary_Data_Ref B)
 {
+    std::unique_ptr<char[]> converted;
     if (A.type != B.type)
     {
         if (A.type == XBT_STRING)
         {
-            char *buffer = reinterpret_cast<char*>(alloca(A.size+64));
+            converted.reset(new char[A.size+64]); // text can be longer than stack
+            char *buffer = converted.get();
             char *buffer_limit = buffer+A.size+64;
             char *p = buffer;
             if (!XBT_FromString(A.data,B.type,&p,buffer_limit)) return false; // cannot convert
@@ -1320,7 +1323,8 @@ bool XBT_Equal(XML_Binary_Data_Ref A,XML_Binary_Data_Ref B)
         }
         else if (B.type == XBT_STRING)
         {
-            char *buffer = reinterpret_cast<char*>(alloca(B.size+64));
+            converted.reset(new char[B.size+64]);
+            char *buffer = converted.get();
             char *buffer_limit = buffer+B.size+64;
             char *p = buffer;
             if (!XBT_FromString(B.data,A.type,&p,buffer_limit)) return false; // cannot convert
-- 
2.43.0


From ef6880d596491cb836ce0e4fc167c77a7e43b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 80/85] fix: import of names from file without names let the
 following names be registered twice

---
 src/bin_write_plugin.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 0d686d5..dd2d2fc 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2250,8 +2250,7 @@ void BW_plugin::importTags(XB_reader *src)
                 src->tag_symbols.getSymbol(i),
                 static_cast<XML_Binary_Type>(src->tag_symbols.getType(i)));
 
-    if (pool->tags.max_id == -1) pool->tags.flags |= BW_SYMBOLS_FAST_REG;
-    else pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
+    pool->tags.flags &= ~BW_SYMBOLS_FAST_REG; // source without names doesn't mean that next names are unique
 }
 
 void BW_plugin::importParams(XB_reader *src)
@@ -2265,8 +2264,7 @@ void BW_plugin::importParams(XB_reader *src)
             getSymbol(i),
             static_cast<XML_Binary_Type>(src->param_symbols.getType(i)));
 
-    if (pool->params.max_id == -1) pool->params.flags |= BW_SYMBOLS_FAST_REG;
-    else pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
+    pool->params.flags &= ~BW_SYMBOLS_FAST_REG; // source without names doesn't mean that next names are unique
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From 5366ff3aa8a868d71e606b55f9f8b2366948706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 81/85] fix: packer: GetXB returned a wrong name for .wsdl
 ("a.wb")

---
 src/bin_xml_packer.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index 36fa06a..72c2dc9 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -366,18 +366,15 @@ bool Bin_xml_packer::GetXB(const char *xml_filename,char *xb_filename,const char
         return false;
     }
 	
-    int len = strlen(xml_filename);
     // XML extension check
-    if (strcmp(dot,".wsdl") == 0) len--; // shorted!
-    else if (strcmp(dot,".xml") != 0 && strcmp(dot,".xsd") != 0)
+    if (strcmp(dot,".wsdl") != 0 && strcmp(dot,".xml") != 0 && strcmp(dot,".xsd") != 0)
     {
         *err_message = "expected file with .xml (or .xsd or .wsdl) extension!";
         return false;
     }
     // XB creation
     strcpy(xb_filename,xml_filename);
-    xb_filename[len-1] = 0;
-    xb_filename[len-2] = 'b';
+    strcpy(xb_filename + (dot - xml_filename),".xb");
 
     Bin_xml_packer BXP(xml_filename,xb_filename);
 
-- 
2.43.0


From 574518fff3fc13a4b555a3d2ed4be5c3b234095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 82/85] fix: creator: documents nested deeper than readers can
 go were written as unreadable files

---
 include/binary_xml/bin_xml_creator.h |  1 +
 src/bin_xml_creator.cpp              | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 920ac24..dd9c683 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -92,6 +92,7 @@ protected:
     int32_t     data_size_allocated;
     int64_t     data_size_needed;   // measured in 1st pass - upper limit of size of all nodes
     bool        write_failed;       // some node cannot be written
+    int         max_deep;           // measured in 1st pass - readers are limited by XML_MAX_DEEP
 
 // 1st pass to enumerate paramcount
     int     total_node_count;
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index beaa40b..efbfb45 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -276,6 +276,7 @@ Bin_xml_creator::Bin_xml_creator(const char *src,const char *dst,Bin_xml_creator
     this->data_size_allocated = 0;
     this->data_size_needed = 0;
     this->write_failed = false;
+    this->max_deep = 0;
 
 // 2nd pass to fill tables
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
@@ -303,6 +304,7 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,const char *dst,Bin_xml_cre
     this->data_size_allocated = 0;
     this->data_size_needed = 0;
     this->write_failed = false;
+    this->max_deep = 0;
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
@@ -328,6 +330,7 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,Bin_xml_creator_target targ
     this->data_size_allocated = 0;
     this->data_size_needed = 0;
     this->write_failed = false;
+    this->max_deep = 0;
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
@@ -431,12 +434,19 @@ bool Bin_xml_creator::Make_xb()
     this->total_param_count = 0;
     this->data_size_needed = 0;
     this->write_failed = false;
+    this->max_deep = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(1184,root != nullptr);
     // total_node_count, total_param_count
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
 
+    if (this->max_deep + 2 > XML_MAX_DEEP) // root is placed in payload of document
+    {
+        std::cerr << "error: " << dst << " too deep nesting, " << this->max_deep + 1 << " levels cannot be read\n";
+        return false;
+    }
+
     CopySymbolTable() || MakeSymbolTable();
     // 2. show stats---------------------------------
 
@@ -582,7 +592,13 @@ bool Bin_xml_creator::Append(void *element)
 
 // buffer must be big enough for this element
     this->data_size_needed = 64;
+    this->max_deep = 0;
     src->ForAllChildrenRecursively(FirstPassEvent,element,(void*)this,0);
+    if (this->max_deep > XML_MAX_DEEP)
+    {
+        std::cerr << "error: " << dst << " too deep nesting, " << this->max_deep + 1 << " levels cannot be read\n";
+        return false;
+    }
     if (!AllocData(this->data_size_needed)) return false;
 
     char *wp = data+file_align;
@@ -624,6 +640,7 @@ void Bin_xml_creator::FirstPassEvent(void *element,void *userdata,int deep)
     assert(element != nullptr);
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_node_count++;
+    MAXIMIZE(_this->max_deep,deep);
 
     XML_Binary_Type type = XBT_UNKNOWN;
     int size = 0;
@@ -696,6 +713,7 @@ bool Bin_xml_creator::Make_xbw()
     this->total_param_count = 0;
     this->data_size_needed = 0;
     this->write_failed = false;
+    this->max_deep = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(2052,root != nullptr);
-- 
2.43.0


From 5ecfeac6c830c21d608dd2fb55cae065f5874c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 83/85] fix: reader: file which was refused stayed open and
 mapped

---
 src/bin_xml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 2c6948e..0514714 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -809,6 +809,7 @@ bool XB_reader::Initialize()
     if (file_size <= (off_t)sizeof(XML_Item) || file_size > INT_MAX)
     {
         std::cerr << "error: " << this->filename << " is not valid binary xml file\n";
+        XB_reader::Finalize(); // nobody would close file which is not open for him
         return false;
     }
     size = file_size;
@@ -817,11 +818,13 @@ bool XB_reader::Initialize()
     if (doc == MAP_FAILED)
     {
         ERRNO_SHOW(1025,"mmap",filename);
+        XB_reader::Finalize();
         return false;
     }
     if (!CheckFile())
     {
         std::cerr << "error: " << this->filename << " is not valid binary xml file\n";
+        XB_reader::Finalize();
         return false;
     }
 
-- 
2.43.0


From 9f3eef6d6c00196ca16dfe972b3544f88d3a28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 84/85] fix: creator: process was aborted when the intermediate
 result could not be written

---
 src/bin_xml_creator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index efbfb45..9b574ba 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -482,7 +482,12 @@ bool Bin_xml_creator::Make_xb()
         }
         AA(dst_file_size);
         int written = write(dst_file,data,dst_file_size);
-        assert(written == dst_file_size);
+        if (written != dst_file_size)
+        {
+            std::cerr << "error: " << strerror(errno) << " while write(" << dst << "," << dst_file_size << ")\n";
+            close(dst_file);
+            return false;
+        }
 
         close(dst_file);
     }
-- 
2.43.0


From 3e4965d10e19c852b863b910616a2233a00d8551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:31 +0000
Subject: [PATCH 85/85] fix: json: size of source measured during conversion
 replaced size of the mapped file

---
 include/binary_xml/bin_json_plugin.h |  1 +
 src/bin_json_plugin.cpp              | 13 +++++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/binary_xml/bin_json_plugin.h b/include/binary_xml/bin_json_plugin.h
index 52b9c25..9b44c59 100644
--- a/include/binary_xml/bin_json_plugin.h
+++ b/include/binary_xml/bin_json_plugin.h
@@ -10,6 +10,7 @@ class Bin_json_plugin : public Bin_src_plugin // interface for json input format
 protected:
 	int		fd;
 	const char	*source;
+	off_t		source_size;	// mapped size - file_size can be updated later
 	int		num_tokens0;
 	int		num_tokens1;
 	int		max_str_len;
diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index c1a351d..3722d1b 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -143,6 +143,7 @@ Bin_json_plugin::Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_c
 {
 	this->fd = -1;
 	this->source = reinterpret_cast<const char*>(MAP_FAILED);
+	this->source_size = 0;
 	this->num_tokens0 = -1;	
 	this->num_tokens1 = -1;	
 	this->tokens = nullptr;
@@ -170,7 +171,7 @@ Bin_json_plugin::~Bin_json_plugin()
 	}
 
 
-	if (source != MAP_FAILED && munmap(const_cast<char *>(source),file_size) == -1)
+	if (source != MAP_FAILED && munmap(const_cast<char *>(source),source_size) == -1)
 		ERRNO_SHOW(1001,"munmap",filename);
 
 	if (fd != -1 && close(fd) == -1)
@@ -189,7 +190,7 @@ bool Bin_json_plugin::Initialize()
 		ERRNO_SHOW(1003,"open",filename);
 		return false;
 	}
-	source = reinterpret_cast<const char *>(mmap(nullptr,file_size,PROT_READ,MAP_PRIVATE,fd,0));
+	source = reinterpret_cast<const char *>(mmap(nullptr,source_size = file_size,PROT_READ,MAP_PRIVATE,fd,0));
 	if (source == MAP_FAILED)
 	{
 		ERRNO_SHOW(1004,"mmap",filename);
@@ -301,8 +302,8 @@ const char *Bin_json_plugin::getNodeName(void *element)
 
 		if (P2->type == JSMN_STRING)
 		{
-			assert(P2->start >= 0 && P2->start < file_size);
-			assert(P2->end > 0 && P2->end <= file_size);
+			assert(P2->start >= 0 && P2->start < source_size);
+			assert(P2->end > 0 && P2->end <= source_size);
 			int len = json_decode(source + P2->start,P2->end - P2->start,last_name);
 
 			if (len > 0 && last_name[len-1] == 's')
@@ -335,8 +336,8 @@ const char *Bin_json_plugin::getNodeName(void *element)
 
 	if (X->type != JSMN_STRING) return nullptr;
 
-	assert(X->start >= 0 && X->start < file_size);
-	assert(X->end > 0 && X->end <= file_size);
+	assert(X->start >= 0 && X->start < source_size);
+	assert(X->end > 0 && X->end <= source_size);
 	
 	json_decode(source + X->start,X->end - X->start,last_name); // value of the same node is still used
 	return last_name;
-- 
2.43.0

