From 776fd943cd17d1c8f551487a9a0bdaa4597509ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 01/13] fix: day-of-year conversions outside 1901-2100 follow
 the Gregorian calendar

ydoy2mjd and modified_julian_day::to_ydoy counted four-year cycles of 1461
days from 1901, ignoring the century rule (e.g. 1900, 2100).
---
 src/dtfund.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 1e84911..3bf24fa 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -164,19 +164,7 @@ ngpt::day_of_month::is_valid(ngpt::year y, ngpt::month m) const noexcept
 ngpt::ydoy_date
 ngpt::modified_julian_day::to_ydoy() const noexcept
 {
-  long days_fr_jan1_1901 { m_mjd - ngpt::jan11901 };
-  long num_four_yrs      { days_fr_jan1_1901/1461L };
-  long years_so_far      { 1901L + 4*num_four_yrs };
-  long days_left         { days_fr_jan1_1901 - 1461*num_four_yrs };
-  long delta_yrs         { days_left/365 - days_left/1460 };
-  
-  ydoy_date ydoy;
-  ydoy.__doy = day_of_year{static_cast<day_of_year::underlying_type>
-              (days_left-365*delta_yrs+1)};
-  ydoy.__year= year{static_cast<year::underlying_type>
-              (years_so_far + delta_yrs)};
-
-  return ydoy;
+  return this->to_ymd().to_ydoy();
 }
 
 ///
@@ -217,8 +205,8 @@ ngpt::ydoy2mjd(ngpt::year yr, ngpt::day_of_year doy) noexcept
     long iyr {static_cast<long>(yr.as_underlying_type())};
     long idy {static_cast<long>(doy.as_underlying_type())};
 
-    return modified_julian_day {((iyr-1901)/4)*1461 + ((iyr-1901)%4)*365 +
-        idy - 1 + ngpt::jan11901};
+    return modified_julian_day {ngpt::cal2mjd(static_cast<int>(iyr), 1, 1) +
+        idy - 1};
 }
 
 /// 
-- 
2.43.0


From 653c894353d2f17bbbdd8945ed83220f0fe2c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 02/13] fix: DEBUG assertion in ydoy_date::to_ymd aborted for
 days of year after 343

The first guess of the month index is 11 in December.
---
 src/dtfund.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 3bf24fa..bcf5930 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -232,7 +232,7 @@ ngpt::ydoy_date::to_ymd() const noexcept
   int guess = __doy.as_underlying_type() * 0.032;
   int leap = __year.is_leap();
 #ifdef DEBUG
-  assert( guess >= 0 && guess < 11 );
+  assert( guess >= 0 && guess < 12 );
 #endif
   int more = (( __doy.as_underlying_type() - month_day[leap][guess+1] ) > 0);
   yd.__month = month{guess + more + 1};
-- 
2.43.0


From af6693102ff29d8cccf2a12b2fb5e23d8b4d30ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 03/13] fix: milliseconds and microseconds from decimal seconds
 lost a tick

E.g. milliseconds{hours{0}, minutes{0}, 1.001} was 1000 ticks: the product
1.001*1000e0 is just below 1001 and was truncated.
---
 src/dtfund.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 8c58f2f..56d1aed 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -161,6 +161,25 @@ dat(year iy, month im) noexcept;
 int
 dat(modified_julian_day mjd) noexcept;
 
+/// @brief Whole ticks (1/factor of a second) in a decimal number of seconds.
+///
+/// The product secs*factor is rounded and may fall on the wrong side of the
+/// tick that secs spells (e.g. 1.001*1e3 is just below 1001); step to the last
+/// tick that is not after secs, so that only excess digits are dropped.
+///
+/// @param[in] secs   Seconds
+/// @param[in] factor Ticks per second
+/// @return    The number of ticks; any fraction of a tick is discarded
+constexpr long
+whole_ticks(double secs, double factor) noexcept
+{
+  double asecs { secs < 0e0 ? -secs : secs };
+  long   ticks { static_cast<long>(asecs * factor) };
+  if ( ticks / factor > asecs ) --ticks;
+  else if ( (ticks + 1) / factor <= asecs ) ++ticks;
+  return secs < 0e0 ? -ticks : ticks;
+}
+
 /// @class year
 /// @brief A wrapper class for years.
 ///
@@ -1361,7 +1380,7 @@ public:
   /// the fs input argument).
   explicit constexpr
   milliseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ whole_ticks(fs, sec_factor<double>())
              + (m.as_underlying_type()*60L + h.as_underlying_type()*3600L)
              * sec_factor<underlying_type>()}
   {
@@ -1601,7 +1620,7 @@ public:
   ///       up to 10e-6.
   explicit constexpr
   microseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ whole_ticks(fs, sec_factor<double>())
             + (m.as_underlying_type()*60L
             + h.as_underlying_type()*3600L) * sec_factor<underlying_type>() }
   {};
-- 
2.43.0


From 41459fcf77fd8b4ca4dc8e7932e2aba36d5dd5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 04/13] fix: datetime::stringify printed the fraction's ticks
 as seconds

The seconds of the time of day were left out.
---
 src/dtcalendar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 39bf625..008e16b 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -743,7 +743,7 @@ public:
     double fsec { st.as_underlying_type() / S::template sec_factor<double>() };
     std::ostringstream out;
     out << std::fixed << std::setprecision(9) 
-        << (fsec + static_cast<double>(st.as_underlying_type()));
+        << (fsec + static_cast<double>(std::get<2>(hms).as_underlying_type()));
 
     return std::string {
                  std::to_string( ymd.__year.as_underlying_type() )
-- 
2.43.0


From c3b2e182208a9bd7d395fe7d61165aeae944aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 05/13] fix: strftime_ymd_hmfs rounded microseconds away

With five decimals the last digit of a microsecond was lost and seconds from
59.999995 on were printed as 60.00000.
---
 src/datetime_write.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index 484b79e..f9c0a63 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -66,7 +66,7 @@ template<typename T>
        + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
        + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
        + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
-       + _d2s_(secs, 5);
+       + _d2s_(secs, 6);
 }
 template<typename T>
   std::string
-- 
2.43.0


From ec200d563a3a7f74afe7a9eeec84437e6ee72f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 06/13] fix: an invalid calendar date given to a datetime
 terminated the process

cal2mjd throws std::out_of_range, but the constructors calling it were
noexcept.
---
 src/dtcalendar.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 008e16b..7682744 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -264,7 +264,7 @@ public:
     
   /// Constructor from year, month, day of month and sec type.
   explicit constexpr
-  datetime(year y, month m, day_of_month d, S s) noexcept
+  datetime(year y, month m, day_of_month d, S s)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{s}
   {
@@ -285,7 +285,7 @@ public:
                 std::is_same<S, decltype(static_cast<S>(T{}))>::value, bool>
                >
   explicit
-  datetime(year y, month m, day_of_month d, T t) noexcept
+  datetime(year y, month m, day_of_month d, T t)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{S(t)}
   {
@@ -316,7 +316,6 @@ public:
                >
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, T sec)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, S(sec)}
   {
@@ -341,7 +340,6 @@ public:
   /// Constructor from year, month, day of month and fractional seconds.
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, double fsecs)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, fsecs}
   {
@@ -361,7 +359,7 @@ public:
   /// second type S.
   explicit
   datetime(year y, month m, day_of_month d, hours hr=hours(),
-           minutes mn=minutes(), S sec=S()) noexcept
+           minutes mn=minutes(), S sec=S())
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, sec}
   {
-- 
2.43.0


From cb13a8b42c7902c7e1d6f771214457b8251af56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 07/13] fix: a datetime from a negative seconds-of-week was not
 in normal form

---
 src/dtcalendar.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 7682744..4a1a06d 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -401,11 +401,10 @@ public:
   explicit
   datetime(gps_week w, S sow) noexcept
     : m_mjd{w.as_underlying_type()*7
-           +sow.as_underlying_type()/S::max_in_day
            +jan61980},
     m_sec{sow}
   {
-    m_sec.remove_days();
+    this->normalize();
   }
 
   /// Get the Modified Julian Day (const).
-- 
2.43.0


From c8018c49b28f758fb26b216fe727e66bb9e88df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 08/13] fix: a stale ERANGE in errno made valid date strings
 unreadable

errno was tested after strtol/strtod but never cleared before.
---
 src/datetime_read.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index ab0b47b..f8623ee 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -14,6 +14,7 @@
 #ifndef __NGPT_DT_READERS__
 #define __NGPT_DT_READERS__
 
+#include <cerrno>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
 #include <stdexcept>
@@ -41,6 +42,7 @@ template<typename T>
 {
   char *end;
   const char* start = str;
+  errno = 0;
   int ints[3];
 
   for (int i = 0; i < 3; ++i) {
@@ -77,6 +79,7 @@ template<typename T>
 {
   char *end;
   const char* start = str;
+  errno = 0;
   int ints[2];
 
   for (int i = 0; i < 2; ++i) {
@@ -112,6 +115,7 @@ template<typename T>
 {
   char *end;
   const char* start = str;
+  errno = 0;
   int ints[5];
   double secs;
 
@@ -157,6 +161,7 @@ template<typename T>
 {
   char *end;
   const char* start = str;
+  errno = 0;
   int ints[5];
   char month_str[4];
   month_str[3] = '\0';
@@ -221,6 +226,7 @@ template<typename T>
 {
   char *end;
   const char* start = str;
+  errno = 0;
   int ints[4];
   double secs;
 
-- 
2.43.0


From e005d09378bbf4c8a66d75ef65d3c929410f7ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 09/13] fix: reading a truncated date string ran past its
 terminator

The delimiter after a field was skipped even when it was the terminating NUL,
and the month name was copied without looking for it.
---
 src/datetime_read.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index f8623ee..aa0f6d7 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -53,7 +53,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = (*end) ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -90,7 +90,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = (*end) ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -127,7 +127,7 @@ template<typename T>
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = (*end) ? end+1 : end;
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
@@ -173,15 +173,15 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
-  start = end+1;
+  start = (*end) ? end+1 : end;
 
-  if ( !std::isalpha(*start) ) ++start;
-  std::memcpy(month_str, start, 3);
+  if ( *start && !std::isalpha(*start) ) ++start;
+  std::strncpy(month_str, start, 3);
   month_str[0] = std::toupper(month_str[0]);
   month_str[1] = std::tolower(month_str[1]);
   month_str[2] = std::tolower(month_str[2]);
   month mnt {month_str};
-  start += 4;
+  start += start[3] ? 4 : 3;
 
   for (int i = 2; i < 5; ++i) {
     ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
@@ -191,7 +191,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = (*end) ? end+1 : end;
   }
 
   secs = std::strtod(start, &end);
@@ -238,7 +238,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = (*end) ? end+1 : end;
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
-- 
2.43.0


From 64854233f8e6d62620b8aa8812e8a1cd9ba5b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 10/13] fix: a date string without its seconds field was
 accepted

The readers throw std::invalid_argument for any other missing field.
---
 src/datetime_read.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index aa0f6d7..6bfa2fb 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -130,7 +130,7 @@ template<typename T>
     start = (*end) ? end+1 : end;
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
@@ -195,7 +195,7 @@ template<typename T>
   }
 
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
@@ -241,7 +241,7 @@ template<typename T>
     start = (*end) ? end+1 : end;
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
-- 
2.43.0


From b82e6c9a4b2fe463bfb9b45f345a81d0fff3459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 11/13] fix: out-of-range numbers in a date string were
 silently wrapped

A field that does not fit an int (or, for the seconds, is huge, infinite or
not a number) was converted with overflow, e.g. year 4294969315 became 2019.
---
 src/datetime_read.hpp | 52 ++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 6bfa2fb..e21fcce 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -17,6 +17,7 @@
 #include <cerrno>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
+#include <limits>
 #include <stdexcept>
 #include "dtfund.hpp"
 #include "dtcalendar.hpp"
@@ -46,13 +47,16 @@ template<typename T>
   int ints[3];
 
   for (int i = 0; i < 3; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long val = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || val > std::numeric_limits<int>::max()
+        || val < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(val));
     start = (*end) ? end+1 : end;
   }
   if (stop) *stop = end - 1;
@@ -83,13 +87,16 @@ template<typename T>
   int ints[2];
 
   for (int i = 0; i < 2; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long val = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || val > std::numeric_limits<int>::max()
+        || val < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(val));
     start = (*end) ? end+1 : end;
   }
   if (stop) *stop = end - 1;
@@ -120,17 +127,21 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 5; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long val = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || val > std::numeric_limits<int>::max()
+        || val < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(val));
     start = (*end) ? end+1 : end;
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end) {
+  if (errno == ERANGE || start == end
+      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
@@ -167,12 +178,15 @@ template<typename T>
   month_str[3] = '\0';
   double secs;
 
-  ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-  if (errno == ERANGE || start == end) {
+  const long val = std::strtol(start, &end, 10);
+  if (errno == ERANGE || start == end
+      || val > std::numeric_limits<int>::max()
+      || val < -std::numeric_limits<int>::max()) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
+  ints[0] = static_cast<int>(std::abs(val));
   start = (*end) ? end+1 : end;
 
   if ( *start && !std::isalpha(*start) ) ++start;
@@ -184,18 +198,22 @@ template<typename T>
   start += start[3] ? 4 : 3;
 
   for (int i = 2; i < 5; ++i) {
-    ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
-    if (errno == ERANGE || start == end) {
+    const long val = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || val > std::numeric_limits<int>::max()
+        || val < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(val));
     start = (*end) ? end+1 : end;
   }
 
   secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end) {
+  if (errno == ERANGE || start == end
+      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
@@ -231,17 +249,21 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 4; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long val = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || val > std::numeric_limits<int>::max()
+        || val < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(val));
     start = (*end) ? end+1 : end;
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end) {
+  if (errno == ERANGE || start == end
+      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
-- 
2.43.0


From 25e94c7dcaa0006d3bcd42c05bf8804cdf4f0e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 12/13] fix: casting large amounts to a coarser second type
 overflowed

---
 src/dtfund.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 56d1aed..5ae1655 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -2117,8 +2117,13 @@ template<typename Ssrc,
   // seconds _s1 = cast_to<milliseconds, seconds>(milliseconds{2000L});
   // this is: (1/1000)*2000 which is 0 because 1/1000 is 0, but
   // (2000*1)/1000 = 2 which is correct
-  auto numerator { s.__member_ref__() * Strg::template sec_factor<long>() };
-  return Strg {numerator / Ssrc::template sec_factor<long>()};
+  // note that only one of the two factors differs from 1; multiplying by the
+  // whole Strg factor first could overflow when casting to a coarser type.
+  constexpr long ft { Strg::template sec_factor<long>() };
+  constexpr long fs { Ssrc::template sec_factor<long>() };
+  constexpr long num { ft > fs ? ft / fs : 1L };
+  constexpr long den { fs > ft ? fs / ft : 1L };
+  return Strg { s.__member_ref__() * num / den };
 }
 
 /// For user-defined literals, i am going to replace long with
-- 
2.43.0


From 54d55a5e470cd1863328e87aec54125a3074b96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 13/13] fix: TAI-UTC by year and month overflowed int for far
 years

---
 src/dat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dat.cpp b/src/dat.cpp
index 5fd60f7..8301899 100644
--- a/src/dat.cpp
+++ b/src/dat.cpp
@@ -74,7 +74,7 @@ ngpt::dat(ngpt::year iy, ngpt::month im) noexcept
   constexpr int NDAT { (int) (sizeof changes / sizeof changes[0]) };
 
   // Combine year and month to form a date-ordered integer...
-  int m = 12*iy.as_underlying_type() + im.as_underlying_type();
+  long m = 12L*iy.as_underlying_type() + im.as_underlying_type();
   // ...and use it to find the preceding table entry.
   int idx = NDAT-1;
   for (; idx >= 0; idx--) {
-- 
2.43.0

