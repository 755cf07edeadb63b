From 4d7aa2ff46dd9d9ab957fe047153ac9a4b1e72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 01/17] fix: ydoy2mjd ignored the Gregorian century rule (wrong
 outside 1901-2099)

---
 src/dtfund.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 1e84911..ad8530d 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -217,8 +217,10 @@ ngpt::ydoy2mjd(ngpt::year yr, ngpt::day_of_year doy) noexcept
     long iyr {static_cast<long>(yr.as_underlying_type())};
     long idy {static_cast<long>(doy.as_underlying_type())};
 
-    return modified_julian_day {((iyr-1901)/4)*1461 + ((iyr-1901)%4)*365 +
-        idy - 1 + ngpt::jan11901};
+    // day before January 1st of the year (same algorithm as in cal2mjd)
+    long jan0 { (1461L*(iyr+4799L))/4L - (3L*((iyr+4899L)/100L))/4L - 2431740L };
+
+    return modified_julian_day {jan0 + idy};
 }
 
 /// 
-- 
2.43.0


From 0cb6bb35eb4a402b08af7ad4a830f7703acc8768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 02/17] fix: modified_julian_day::to_ydoy was wrong before 1901
 and after 2100-02-28

---
 src/dtfund.cpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index ad8530d..f9dc81f 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -164,19 +164,8 @@ ngpt::day_of_month::is_valid(ngpt::year y, ngpt::month m) const noexcept
 ngpt::ydoy_date
 ngpt::modified_julian_day::to_ydoy() const noexcept
 {
-  long days_fr_jan1_1901 { m_mjd - ngpt::jan11901 };
-  long num_four_yrs      { days_fr_jan1_1901/1461L };
-  long years_so_far      { 1901L + 4*num_four_yrs };
-  long days_left         { days_fr_jan1_1901 - 1461*num_four_yrs };
-  long delta_yrs         { days_left/365 - days_left/1460 };
-  
-  ydoy_date ydoy;
-  ydoy.__doy = day_of_year{static_cast<day_of_year::underlying_type>
-              (days_left-365*delta_yrs+1)};
-  ydoy.__year= year{static_cast<year::underlying_type>
-              (years_so_far + delta_yrs)};
-
-  return ydoy;
+  // via the calendar date, which handles all Gregorian years
+  return this->to_ymd().to_ydoy();
 }
 
 ///
-- 
2.43.0


From 23e918008ebb7d68f225d480ae611f47a21e88f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 03/17] fix: ydoy_date::to_ymd aborted in debug builds for any
 day of year >= 344

---
 src/dtfund.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index f9dc81f..b91e940 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -235,7 +235,7 @@ ngpt::ydoy_date::to_ymd() const noexcept
   int guess = __doy.as_underlying_type() * 0.032;
   int leap = __year.is_leap();
 #ifdef DEBUG
-  assert( guess >= 0 && guess < 11 );
+  assert( guess >= 0 && guess < 12 );
 #endif
   int more = (( __doy.as_underlying_type() - month_day[leap][guess+1] ) > 0);
   yd.__month = month{guess + more + 1};
-- 
2.43.0


From c506eb0ea6d8b78968346fbda36526b7922c40b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 04/17] fix: datetime(gps_week, sow) kept a negative time of
 day for negative seconds of week

---
 src/dtcalendar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 39bf625..5fec17b 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -408,6 +408,7 @@ public:
     m_sec{sow}
   {
     m_sec.remove_days();
+    this->normalize();
   }
 
   /// Get the Modified Julian Day (const).
-- 
2.43.0


From 82aa0436a12620f165306bec8885725cf84eea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 05/17] fix: datetime::stringify printed the sub-second count
 in place of the seconds

---
 src/dtcalendar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 5fec17b..1353b27 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -744,7 +744,7 @@ public:
     double fsec { st.as_underlying_type() / S::template sec_factor<double>() };
     std::ostringstream out;
     out << std::fixed << std::setprecision(9) 
-        << (fsec + static_cast<double>(st.as_underlying_type()));
+        << (fsec + static_cast<double>(std::get<2>(hms).as_underlying_type()));
 
     return std::string {
                  std::to_string( ymd.__year.as_underlying_type() )
-- 
2.43.0


From 8a87e3d3b1f9d5bb376fd7286fc1a4a02e7f347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 06/17] fix: character classification was called with negative
 char values

---
 src/datetime_read.hpp | 8 ++++----
 src/dtfund.cpp        | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index ab0b47b..8de4141 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -170,11 +170,11 @@ template<typename T>
   }
   start = end+1;
 
-  if ( !std::isalpha(*start) ) ++start;
+  if ( !std::isalpha(static_cast<unsigned char>(*start)) ) ++start;
   std::memcpy(month_str, start, 3);
-  month_str[0] = std::toupper(month_str[0]);
-  month_str[1] = std::tolower(month_str[1]);
-  month_str[2] = std::tolower(month_str[2]);
+  month_str[0] = std::toupper(static_cast<unsigned char>(month_str[0]));
+  month_str[1] = std::tolower(static_cast<unsigned char>(month_str[1]));
+  month_str[2] = std::tolower(static_cast<unsigned char>(month_str[2]));
   month mnt {month_str};
   start += 4;
 
diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index b91e940..fdfb95c 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -87,7 +87,8 @@ __lower_strncmp__(const char *str1, const char *str2, std::size_t n=0)
 {
   if (!n) n = std::max(std::strlen(str1), std::strlen(str2));
   for (std::size_t i = 0; i < n; i++) 
-    if ( !(std::tolower(str1[i]) == std::tolower(str2[i])) ) 
+    if ( !(std::tolower(static_cast<unsigned char>(str1[i]))
+            == std::tolower(static_cast<unsigned char>(str2[i]))) ) 
       return 1;
   return 0;
 }
-- 
2.43.0


From 71e14b31577d54ca3025d708358a119b4c211dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 07/17] fix: readers walked past the terminator of a truncated
 text

---
 src/datetime_read.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 8de4141..0ba5952 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -51,7 +51,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -87,7 +87,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -123,7 +123,7 @@ template<typename T>
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
@@ -168,15 +168,15 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
-  start = end+1;
+  start = *end ? end+1 : end;
 
-  if ( !std::isalpha(static_cast<unsigned char>(*start)) ) ++start;
-  std::memcpy(month_str, start, 3);
+  if ( *start && !std::isalpha(static_cast<unsigned char>(*start)) ) ++start;
+  std::strncpy(month_str, start, 3);
   month_str[0] = std::toupper(static_cast<unsigned char>(month_str[0]));
   month_str[1] = std::tolower(static_cast<unsigned char>(month_str[1]));
   month_str[2] = std::tolower(static_cast<unsigned char>(month_str[2]));
   month mnt {month_str};
-  start += 4;
+  start += start[3] ? 4 : 3;
 
   for (int i = 2; i < 5; ++i) {
     ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
@@ -186,7 +186,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
 
   secs = std::strtod(start, &end);
@@ -232,7 +232,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
-- 
2.43.0


From 8841d75b5f0d05a55d3e951c94d3cd526739f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 08/17] fix: readers rejected good text after an unrelated
 ERANGE left in errno

---
 src/datetime_read.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 0ba5952..6456ab1 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -14,6 +14,7 @@
 #ifndef __NGPT_DT_READERS__
 #define __NGPT_DT_READERS__
 
+#include <cerrno>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
 #include <stdexcept>
@@ -44,6 +45,7 @@ template<typename T>
   int ints[3];
 
   for (int i = 0; i < 3; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -80,6 +82,7 @@ template<typename T>
   int ints[2];
 
   for (int i = 0; i < 2; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -116,6 +119,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 5; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -125,6 +129,7 @@ template<typename T>
     }
     start = *end ? end+1 : end;
   }
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
     errno = 0;
@@ -162,6 +167,7 @@ template<typename T>
   month_str[3] = '\0';
   double secs;
 
+  errno = 0;
   ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
   if (errno == ERANGE || start == end) {
     errno = 0;
@@ -179,6 +185,7 @@ template<typename T>
   start += start[3] ? 4 : 3;
 
   for (int i = 2; i < 5; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -189,6 +196,7 @@ template<typename T>
     start = *end ? end+1 : end;
   }
 
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
     errno = 0;
@@ -225,6 +233,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 4; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -234,6 +243,7 @@ template<typename T>
     }
     start = *end ? end+1 : end;
   }
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
     errno = 0;
-- 
2.43.0


From 8bec120ed0e93fd0492e3d5853a5892c76f6dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 09/17] fix: readers silently truncated integer fields that do
 not fit an int

---
 src/datetime_read.hpp | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 6456ab1..60409dd 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -17,6 +17,7 @@
 #include <cerrno>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
+#include <limits>
 #include <stdexcept>
 #include "dtfund.hpp"
 #include "dtcalendar.hpp"
@@ -46,13 +47,16 @@ template<typename T>
 
   for (int i = 0; i < 3; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long ival = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || ival > std::numeric_limits<int>::max()
+        || ival < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(ival));
     start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
@@ -83,13 +87,16 @@ template<typename T>
 
   for (int i = 0; i < 2; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long ival = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || ival > std::numeric_limits<int>::max()
+        || ival < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(ival));
     start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
@@ -120,13 +127,16 @@ template<typename T>
 
   for (int i = 0; i < 5; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long ival = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || ival > std::numeric_limits<int>::max()
+        || ival < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(ival));
     start = *end ? end+1 : end;
   }
   errno = 0;
@@ -168,12 +178,15 @@ template<typename T>
   double secs;
 
   errno = 0;
-  ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-  if (errno == ERANGE || start == end) {
+  const long ival = std::strtol(start, &end, 10);
+  if (errno == ERANGE || start == end
+      || ival > std::numeric_limits<int>::max()
+      || ival < -std::numeric_limits<int>::max()) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
+  ints[0] = static_cast<int>(std::abs(ival));
   start = *end ? end+1 : end;
 
   if ( *start && !std::isalpha(static_cast<unsigned char>(*start)) ) ++start;
@@ -186,13 +199,16 @@ template<typename T>
 
   for (int i = 2; i < 5; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
-    if (errno == ERANGE || start == end) {
+    const long ival = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || ival > std::numeric_limits<int>::max()
+        || ival < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(ival));
     start = *end ? end+1 : end;
   }
 
@@ -234,13 +250,16 @@ template<typename T>
 
   for (int i = 0; i < 4; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long ival = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || ival > std::numeric_limits<int>::max()
+        || ival < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(ival));
     start = *end ? end+1 : end;
   }
   errno = 0;
-- 
2.43.0


From b77e1e6eb5ada3f8dc1a6eee355a30d2b287d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 10/17] fix: readers took missing, infinite or not-a-number
 seconds

---
 src/datetime_read.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 60409dd..3fb2614 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -17,6 +17,7 @@
 #include <cerrno>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
+#include <cmath>
 #include <limits>
 #include <stdexcept>
 #include "dtfund.hpp"
@@ -141,7 +142,8 @@ template<typename T>
   }
   errno = 0;
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end
+      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
@@ -214,7 +216,8 @@ template<typename T>
 
   errno = 0;
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end
+      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
@@ -264,7 +267,8 @@ template<typename T>
   }
   errno = 0;
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end
+      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
-- 
2.43.0


From f95ef25e8544141035094cc60b359015a24a4b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 11/17] fix: day-of-year readers made up a date for a day of
 year that does not exist

---
 src/datetime_read.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 3fb2614..d89150a 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -100,6 +100,10 @@ template<typename T>
     ints[i] = static_cast<int>(std::abs(ival));
     start = *end ? end+1 : end;
   }
+  if (!day_of_year{ints[1]}.is_valid(year{ints[0]})) {
+    throw std::invalid_argument
+      ("Invalid date: \"" + std::string(str) + "\" (day of year).");
+  }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     day_of_year{ints[1]},
@@ -273,6 +277,10 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
   }
+  if (!day_of_year{ints[1]}.is_valid(year{ints[0]})) {
+    throw std::invalid_argument
+      ("Invalid date: \"" + std::string(str) + "\" (day of year).");
+  }
   if (stop) *stop = end;
   return datetime<T> {year{ints[0]},
     day_of_year{ints[1]},
-- 
2.43.0


From ac5399e273873e4af3ef4fc6b5e166dd43058b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 12/17] fix: hms readers set stop past the last character
 interpreted

---
 src/datetime_read.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index d89150a..ce5aa08 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -152,7 +152,7 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
   }
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     month{ints[1]},
     day_of_month{ints[2]},
@@ -227,7 +227,7 @@ template<typename T>
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
   }
 
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
 
   return datetime<T> {year{ints[0]},
     mnt,
@@ -281,7 +281,7 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date: \"" + std::string(str) + "\" (day of year).");
   }
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     day_of_year{ints[1]},
     hours{ints[2]},
-- 
2.43.0


From 513b3731c51e1b05364c869308f224583aa55d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 13/17] fix: an invalid calendar date terminated the program in
 the noexcept datetime constructors

---
 src/dtcalendar.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 1353b27..74e282d 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -264,7 +264,7 @@ public:
     
   /// Constructor from year, month, day of month and sec type.
   explicit constexpr
-  datetime(year y, month m, day_of_month d, S s) noexcept
+  datetime(year y, month m, day_of_month d, S s)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{s}
   {
@@ -285,7 +285,7 @@ public:
                 std::is_same<S, decltype(static_cast<S>(T{}))>::value, bool>
                >
   explicit
-  datetime(year y, month m, day_of_month d, T t) noexcept
+  datetime(year y, month m, day_of_month d, T t)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{S(t)}
   {
@@ -316,7 +316,6 @@ public:
                >
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, T sec)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, S(sec)}
   {
@@ -341,7 +340,6 @@ public:
   /// Constructor from year, month, day of month and fractional seconds.
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, double fsecs)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, fsecs}
   {
@@ -361,7 +359,7 @@ public:
   /// second type S.
   explicit
   datetime(year y, month m, day_of_month d, hours hr=hours(),
-           minutes mn=minutes(), S sec=S()) noexcept
+           minutes mn=minutes(), S sec=S())
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, sec}
   {
-- 
2.43.0


From 39bfa6e3fba12eca314a1ee47e2cb40bac1afc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 14/17] fix: adding a real number to a modified_julian_day
 compiled and dropped its fraction

---
 src/dtfund.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 8c58f2f..b4fbc78 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -729,10 +729,10 @@ public:
   /// the "-" operator. Now the "-" can only work if the right-hand-side is
   /// a modified_julian_day instance.
   /// 
-  /// @tparam     I    Any integral type
+  /// @tparam     I    Any arithmetic type
   /// @param[in] _intv Any instance of type I
   template<typename I,
-           typename = std::enable_if_t<std::is_integral_v<I>>
+           typename = std::enable_if_t<std::is_arithmetic_v<I>>
            >
   inline constexpr modified_julian_day
   operator-(I _intv) const noexcept = delete;
@@ -757,10 +757,10 @@ public:
   /// the "+" operator. Now the "+" can only work if the right-hand-side is
   /// a modified_julian_day instance.
   /// 
-  /// @tparam     I    Any integral type
+  /// @tparam     I    Any arithmetic type
   /// @param[in] _intv Any instance of type I
   template<typename I,
-           typename = std::enable_if_t<std::is_integral_v<I>>
+           typename = std::enable_if_t<std::is_arithmetic_v<I>>
            >
   inline constexpr modified_julian_day
   operator+(I _intv) const noexcept = delete;
-- 
2.43.0


From 8c5e2d40744ea8c842b8581db910fbcd974b09fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 15/17] fix: cast_to overflowed on intermediate results for
 more than 292 years of sub-second counts

---
 src/dtfund.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index b4fbc78..7617f1f 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -2098,8 +2098,14 @@ template<typename Ssrc,
   // seconds _s1 = cast_to<milliseconds, seconds>(milliseconds{2000L});
   // this is: (1/1000)*2000 which is 0 because 1/1000 is 0, but
   // (2000*1)/1000 = 2 which is correct
-  auto numerator { s.__member_ref__() * Strg::template sec_factor<long>() };
-  return Strg {numerator / Ssrc::template sec_factor<long>()};
+  // Only the ratio of the two factors is used, so that the product cannot
+  // overflow unless the result does.
+  constexpr long fsrc { Ssrc::template sec_factor<long>() };
+  constexpr long ftrg { Strg::template sec_factor<long>() };
+  if constexpr (ftrg >= fsrc)
+    return Strg {s.__member_ref__() * (ftrg / fsrc)};
+  else
+    return Strg {s.__member_ref__() / (fsrc / ftrg)};
 }
 
 /// For user-defined literals, i am going to replace long with
-- 
2.43.0


From b7a52fe957584f830008e9aaa3f837253d120e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 16/17] fix: strftime_ymd_hmfs rounded microseconds to 5
 decimals, printing up to 60.00000 seconds

---
 src/datetime_write.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index 484b79e..7033929 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -66,7 +66,7 @@ template<typename T>
        + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
        + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
        + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
-       + _d2s_(secs, 5);
+       + _d2s_(secs, T::template sec_factor<long>() > 100000L ? 6 : 5);
 }
 template<typename T>
   std::string
-- 
2.43.0


From 38378ae4a54fa8814bb31aa864931d9244a72290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:48 +0000
Subject: [PATCH 17/17] fix: dividing an interval lost up to one unit per part
 (and more for long sub-second intervals)

17.5 days divided by 5 gave 3 days 11:59:59, 5e7 days of microseconds
divided by 3 were 54 microseconds short: the quotient was computed in
double precision and truncated. Compute it with integers.
---
 src/dtcalendar.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 74e282d..5035daa 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -170,14 +170,12 @@ public:
   datetime_interval
   operator/(int div) const noexcept
   {
-    double d = static_cast<double>(m_days.as_underlying_type());
-    double i, f;
-    f = std::modf(d/div, &i);
-    auto new_mjd = static_cast<modified_julian_day::underlying_type>(i);
-
-    d = static_cast<double>(m_secs.as_underlying_type());
-    d = d/div + f*S::max_in_day;
-    auto new_sec = static_cast<typename S::underlying_type>(d);
+    // days, then the seconds of the remaining days, then the rest; all exact
+    constexpr long fac { S::template sec_factor<long>() };
+    auto new_mjd = m_days.as_underlying_type() / div;
+    auto rsec = (m_days.as_underlying_type() % div) * seconds::max_in_day;
+    auto new_sec = (rsec / div) * fac
+                 + ((rsec % div) * fac + m_secs.as_underlying_type()) / div;
 
     return datetime_interval{modified_julian_day{new_mjd}, S{new_sec}};
   }
-- 
2.43.0

