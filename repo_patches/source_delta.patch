From b91fcf8e7c6cef82d3591c5c1f1392861237844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 01/42] fix: compare observables as multisets of terms

{A,A} compared equal to {A,B} (but not the other way around), since only
the existence of each left hand side term was checked.
---
 src/gnssobsrv.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/gnssobsrv.cpp b/src/gnssobsrv.cpp
index 2dc58b3..0200702 100644
--- a/src/gnssobsrv.cpp
+++ b/src/gnssobsrv.cpp
@@ -65,11 +65,6 @@ bool ngpt::GnssObservable::operator==(const ngpt::GnssObservable &o) const
     noexcept {
   if (o.__vec.size() != __vec.size())
     return false;
-  for (const auto &i : __vec)
-    if (auto it = std::find_if(
-            o.__vec.begin(), o.__vec.end(),
-            [&ic = std::as_const(i)](const __ObsPart &p) { return p == ic; });
-        it == o.__vec.end())
-      return false;
-  return true;
+  // same terms, each one the same number of times, in any order
+  return std::is_permutation(__vec.begin(), __vec.end(), o.__vec.begin());
 }
-- 
2.43.0


From 56a1e243d43545aa4d7708868476608858978bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 02/42] fix: let GnssObservable::frequency throw for an unknown
 band

The band lookup throws std::out_of_range; out of a noexcept function that
terminated the program.
---
 src/gnssobsrv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnssobsrv.hpp b/src/gnssobsrv.hpp
index f6f37b9..6359782 100644
--- a/src/gnssobsrv.hpp
+++ b/src/gnssobsrv.hpp
@@ -125,7 +125,7 @@ public:
     __vec.emplace_back(sys, code, coef);
   }
 
-  double frequency() const noexcept {
+  double frequency() const {
     double frequency = 0e0;
     for (const auto &v : __vec)
       frequency += v.frequency();
-- 
2.43.0


From ea554894d1eeef15222ff3917c4fc77f09c51ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 03/42] fix: index the BeiDou bands by their RINEX 3 band
 numbers

RINEX numbers the BeiDou bands 2 (B1), 7 (B2) and 6 (B3), plus 1, 5 and 8
for the BDS-3 signals; C2I got the frequency of B2 and C7I, C6I had none.
---
 src/satsys.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/satsys.cpp b/src/satsys.cpp
index 6760569..53eacfa 100644
--- a/src/satsys.cpp
+++ b/src/satsys.cpp
@@ -65,13 +65,22 @@ const std::map<int, std::string> ngpt::satellite_system_traits<
 /// Initialize the static frequency map for BDS.
 const std::map<int, double> ngpt::satellite_system_traits<
     ngpt::SATELLITE_SYSTEM::beidou>::frequency_map = {
-    {1, 1561.098e0}, {2, 1207.140e0}, {3, 1268.520e0}};
+    {1, 1575.420e0}, ///< B1C, B1A
+    {2, 1561.098e0}, ///< B1-2
+    {5, 1176.450e0}, ///< B2a
+    {6, 1268.520e0}, ///< B3, B3A
+    {7, 1207.140e0}, ///< B2, B2b
+    {8, 1191.795e0}  ///< B2(B2a+B2b)
+};
 
 const std::map<int, std::string> ngpt::satellite_system_traits<
     ngpt::SATELLITE_SYSTEM::beidou>::valid_atributes = {
-    {1, std::string("IQX?")},
+    {1, std::string("DPXSLZ?")},
     {2, std::string("IQX?")},
-    {3, std::string("IQX?")}};
+    {5, std::string("DPX?")},
+    {6, std::string("IQXDPZ?")},
+    {7, std::string("IQXDPZ?")},
+    {8, std::string("DPX?")}};
 
 /// Initialize the static frequency map for IRNSS.
 /// \todo in \cite rnx303 the 2nd frequency band is denoted as 'S'
-- 
2.43.0


From 361fe89ae92e6df940f8fb156eae40535ebc43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 04/42] fix: SatelliteAntenna::is_same returned true for
 different antennas

---
 src/antenna.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 8b11f9e..9a877a2 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -189,7 +189,7 @@ SatelliteAntenna::SatelliteAntenna(const char *c) noexcept {
 /// @return       Returns true of the passed in c-string holds the same
 ///               antenna type as this instance; false otherwise
 bool SatelliteAntenna::is_same(const char *c) const noexcept {
-  return std::strncmp(__name, c, satellite_antenna_max_chars);
+  return !std::strncmp(__name, c, satellite_antenna_max_chars);
 }
 
 /// Set the model name to nothing, that is to 20 null terminating chars
-- 
2.43.0


From acdced9e8f2b57e68d99675a83eb9f9fd8097c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 05/42] fix: set radome to NONE exactly when the input has no
 radome

A blank radome in a full 20 column name was left blank, so that e.g. an
antenna line of an ANTEX or RINEX file never matched; a (short) radome in an
input of 17 to 19 characters was overwritten. The emptiness check looked at
columns 16-19 instead of 17-20.
---
 src/antenna.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 9a877a2..c66d47d 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -36,8 +36,8 @@ void ReceiverAntenna::set_none_radome() noexcept {
 /// Check if the instance's radome type is empty, aka is "	  "
 /// @return true if radome is empty; false otherwise
 bool ReceiverAntenna::radome_is_empty() const noexcept {
-  constexpr std::size_t from = antenna_model_max_chars;
-  constexpr std::size_t to = antenna_model_max_chars + antenna_radome_max_chars;
+  constexpr std::size_t from = antenna_model_max_chars + 1;
+  constexpr std::size_t to = from + antenna_radome_max_chars;
   for (std::size_t i = from; i < to; i++) {
     if (__name[i] != ' ')
       return false;
@@ -65,6 +65,8 @@ void ReceiverAntenna::copy_from_cstr(const char *c) noexcept {
   std::memcpy(__name, c, sizeof(char) * std::min(ant_size, max_sz));
   if (ant_size < max_sz) {
     std::memset(__name + ant_size, ' ', sizeof(char) * (max_sz - ant_size));
+  }
+  if (radome_is_empty()) {
     set_none_radome();
   }
 }
-- 
2.43.0


From adb4c4fc6cebd5c64fc6b0ba3f347f7eeaf20bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 06/42] fix: compare a serial number regardless of its padding

set_serial_nr() pads the serial with whitespace to 20 columns, hence
compare_serial() was false for the very serial number just set.
---
 src/antenna.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index c66d47d..f5c7079 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -131,7 +131,15 @@ bool ReceiverAntenna::compare_model(const ReceiverAntenna &rhs) const noexcept {
 /// @return		   True if the serials match exactly; false otherwise
 bool ReceiverAntenna::compare_serial(const char *c) const noexcept {
   constexpr auto idx = antenna_model_max_chars + 1 + antenna_radome_max_chars;
-  return !std::strncmp(__name + idx, c, antenna_serial_max_chars);
+  const char *s = __name + idx;
+  // (trailing) whitespace is just padding, see set_serial_nr()
+  for (std::size_t i = 0; i < antenna_serial_max_chars; i++) {
+    const char lhs = *s ? *s++ : ' ';
+    const char rhs = *c ? *c++ : ' ';
+    if (lhs != rhs)
+      return false;
+  }
+  return true;
 }
 
 /// Check if the Antenna instance has a serial number; that is, any of the
-- 
2.43.0


From 1b63352f1910c2fdbde7477288ba224b23caf6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 07/42] fix: keep the last letter of the COSPAR id

"YYYY-XXXA" has nine characters.
---
 src/satellite.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satellite.hpp b/src/satellite.hpp
index dd07986..8c24eb4 100644
--- a/src/satellite.hpp
+++ b/src/satellite.hpp
@@ -27,7 +27,7 @@
 namespace ngpt {
 
 namespace detail {
-constexpr int COSPAR_ID_CHARS = 8;
+constexpr int COSPAR_ID_CHARS = 9;
 }
 
 /// @class Satellite
-- 
2.43.0


From 386fe899a24659a15075d9009bb5008490c04ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 08/42] fix: a satellite's text without (or with a short)
 COSPAR id

The id was not initialized but printed nevertheless, always all columns.
---
 src/satellite.cpp | 5 +++--
 src/satellite.hpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/satellite.cpp b/src/satellite.cpp
index 5b3a100..0998f63 100644
--- a/src/satellite.cpp
+++ b/src/satellite.cpp
@@ -1,4 +1,5 @@
 #include "satellite.hpp"
+#include <cstring>
 
 using ngpt::Satellite;
 
@@ -17,6 +18,6 @@ std::string Satellite::to_string(bool compact) const noexcept {
   else
     sat += ("-" + s);
 
-  return sat +
-         std::string("/" + std::string(__cospar, detail::COSPAR_ID_CHARS));
+  return sat + "/" +
+         std::string(__cospar, strnlen(__cospar, detail::COSPAR_ID_CHARS));
 }
diff --git a/src/satellite.hpp b/src/satellite.hpp
index 8c24eb4..bf298db 100644
--- a/src/satellite.hpp
+++ b/src/satellite.hpp
@@ -113,7 +113,7 @@ private:
                               ///< (QZSS); blank (Compass, SBAS)
   SatelliteAntenna __antenna; ///< antenna type
   char
-      __cospar[detail::COSPAR_ID_CHARS + 1]; ///< The COSPAR id, aka "YYYY-XXXA"
+      __cospar[detail::COSPAR_ID_CHARS + 1]{}; ///< The COSPAR id, "YYYY-XXXA"
 };                                           // Satellite
 
 } // namespace ngpt
-- 
2.43.0


From d582d437979f8912aee172196951d8e3062abfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 09/42] fix: resolve fixed-width numbers from their own columns
 only

strtod() was not bounded by the field's width: a field filled with digits
swallowed the following one, and a blank field silently got the value of the
next non-blank one. When the line was shorter than the fields, memory after
its end was resolved. The (possibly blank) spare record of BeiDou navigation
blocks, which depended on that, is now handled explicitly.
---
 src/navrnx.cpp  | 12 +++++++++++-
 src/nvarstr.hpp | 25 +++++++++++++++++++------
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index f8b6c8b..b1f17c7 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -134,11 +134,21 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
           errno = 0;
           return 6;
         }
-      } else {
+      } else if (sys__ == SATELLITE_SYSTEM::galileo) {
         if (!__char2double__<3, 19>(line + 4, data__ + 3 + ln * 4)) {
           errno = 0;
           return 6;
         }
+      } else { // beidou: the second record is a spare, it can be blank
+        double *data = data__ + 3 + ln * 4;
+        if (std::strlen(line) < 4 + 2 * 19 ||
+            !__char2double__<1, 19>(line + 4, data) ||
+            !__char2double__<1, 19>(line + 4 + 2 * 19, data + 2)) {
+          errno = 0;
+          return 6;
+        }
+        if (!__char2double__<1, 19>(line + 4 + 19, data + 1))
+          data[1] = 0e0;
       }
     }
   }
diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index 7c4ee64..f466df7 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -1,6 +1,9 @@
 #ifndef __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 #define __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 
+#include <cerrno>
+#include <cstdlib>
+#include <cstring>
 #include <string>
 
 namespace ngpt {
@@ -84,12 +87,17 @@ std::string ltrim(const char *str, std::size_t &start,
 ///          sure to clear it (aka 'errno') after exit.
 template <int N, int M>
 inline bool __char2double__(const char *line, double *data) noexcept {
+  char field[M + 1];
   char *end;
   for (int i = 0; i < N; i++) {
-    data[i] = std::strtod(line, &end);
-    if (line == end)
+    // resolve this field only, not any adjacent one; a line can be shorter
+    const std::size_t len = strnlen(line, M);
+    std::memcpy(field, line, len);
+    field[len] = '\0';
+    data[i] = std::strtod(field, &end);
+    if (field == end)
       return false;
-    line += M;
+    line += len;
   }
   return errno ? false : true;
 }
@@ -107,12 +115,17 @@ inline bool __char2double__(const char *line, double *data) noexcept {
 /// doubles we are resolving at compile time.
 template <int M>
 inline bool __char2double__(const char *line, double *data, int N) noexcept {
+  char field[M + 1];
   char *end;
   for (int i = 0; i < N; i++) {
-    data[i] = std::strtod(line, &end);
-    if (line == end)
+    // resolve this field only, not any adjacent one; a line can be shorter
+    const std::size_t len = strnlen(line, M);
+    std::memcpy(field, line, len);
+    field[len] = '\0';
+    data[i] = std::strtod(field, &end);
+    if (field == end)
       return false;
-    line += M;
+    line += len;
   }
   return errno ? false : true;
 }
-- 
2.43.0


From 59ed6158754f86cb99022519606c4ff6441a9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 10/42] fix: do not take an old errno for a failed conversion

errno is never cleared by the library functions that succeed; after any
failed system call (e.g. a missing file) the next numbers were refused.
---
 src/nvarstr.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index f466df7..54168ca 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -82,11 +82,12 @@ std::string ltrim(const char *str, std::size_t &start,
 /// @param[out] data  An array of (at least) N-1 elements; the resolved doubles
 ///                   will be written in data[0]...data[N-1]
 /// @return  True if all numbers were resolved and assigned; false otherwise
-/// @warning The function will check 'errno'. Be sure that it is 0 at input. If
-///          an error occurs in the function call, it may be set to !=0, so be
-///          sure to clear it (aka 'errno') after exit.
+/// @warning The function will clear and then check 'errno'. If an error occurs
+///          in the function call, it may be set to !=0, so be sure to clear it
+///          (aka 'errno') after exit.
 template <int N, int M>
 inline bool __char2double__(const char *line, double *data) noexcept {
+  errno = 0;
   char field[M + 1];
   char *end;
   for (int i = 0; i < N; i++) {
@@ -108,13 +109,14 @@ inline bool __char2double__(const char *line, double *data) noexcept {
 /// @param[out] data  An array of (at least) N-1 elements; the resolved doubles
 ///                   will be written in data[0]...data[N-1]
 /// @return  True if all numbers were resolved and assigned; false otherwise
-/// @warning The function will check 'errno'. Be sure that it is 0 at input. If
-///          an error occurs in the function call, it may be set to !=0, so be
-///          sure to clear it (aka 'errno') after exit.
+/// @warning The function will clear and then check 'errno'. If an error occurs
+///          in the function call, it may be set to !=0, so be sure to clear it
+///          (aka 'errno') after exit.
 /// @note exactly the same as the template version, only we don't know how many
 /// doubles we are resolving at compile time.
 template <int M>
 inline bool __char2double__(const char *line, double *data, int N) noexcept {
+  errno = 0;
   char field[M + 1];
   char *end;
   for (int i = 0; i < N; i++) {
-- 
2.43.0


From 4e8688c18aff5500bdd656921c4021345ba44f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 11/42] fix: Kalman update without weights had no measurement
 noise

The residual covariance is singular for more than four satellites then.
---
 src/gauss_newton.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gauss_newton.hpp b/src/gauss_newton.hpp
index 3883bbc..7bdecf8 100644
--- a/src/gauss_newton.hpp
+++ b/src/gauss_newton.hpp
@@ -68,9 +68,8 @@ public:
       std::cout << "\nNext P=\n" << P_;
     // residual covariance: S = H(1)*P(1|0)*H^T(1) + R(1)
     Eigen::MatrixXd S(H_ * P_ * H_.transpose());
-    if (w)
-      for (int i = 0; i < nsats_; i++)
-        S(i, i) += (100e0 + (*w)[i]);
+    for (int i = 0; i < nsats_; i++)
+      S(i, i) += (100e0 + (w ? (*w)[i] : 0e0));
     if (dbg)
       std::cout << "\nResidual cov\n" << S;
     // filter gain W: W = P(1|0) * H^T(1) *S^-1(1)
-- 
2.43.0


From a507dc85fed3daad31972279c074343ea6bfa1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 12/42] fix: do not resolve navigation fields from leftovers of
 a longer line

---
 src/navrnx.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index b1f17c7..493d29f 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -30,6 +30,14 @@ const std::size_t eoh_size{std::strlen("END OF HEADER")};
 constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 #endif
 
+/// @brief Read a line to a buffer of size N; at success, all characters of the
+///        buffer following the line are set to '\0' (a line can be shorter than
+///        the columns we want to resolve).
+template <int N> static bool __get_line__(std::istream &is, char (&line)[N]) {
+  std::memset(line, 0, N);
+  return static_cast<bool>(is.getline(line, N));
+}
+
 /// @brief Navigation data block lines per satellite system
 /// @param[in]  s SATELLITE_SYSTEM
 /// @param[out] records_in_last_line Number of records that the last line holds.
@@ -84,7 +92,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
 
   // Read the first line.
   // ------------------------------------------------------------
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!__get_line__(inp, line)) {
     return 1;
   }
   sys__ = ngpt::char_to_satsys(*line);
@@ -110,7 +118,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   // read all but the last line (** all but galileo or beidou **)
   if (sys__ != SATELLITE_SYSTEM::galileo && sys__ != SATELLITE_SYSTEM::beidou) {
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!__get_line__(inp, line)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -123,7 +131,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
     }
   } else { // galileo and beidou have an empty record in line #5
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!__get_line__(inp, line)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -154,7 +162,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
 
   // read last line
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!__get_line__(inp, line)) {
     return 7;
   }
   // replace 'D' or 'd' with 'e'
@@ -225,7 +233,7 @@ int NavigationRnx::read_header() noexcept {
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  __get_line__(__istream, line);
   __version = std::strtof(line, &str_end);
   if (str_end == line)
     return 10; // transformation to float has failed
@@ -240,13 +248,13 @@ int NavigationRnx::read_header() noexcept {
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
   int dummy_it = 0;
-  __istream.getline(line, MAX_HEADER_CHARS);
-  while (dummy_it < MAX_HEADER_LINES &&
+  bool ok = __get_line__(__istream, line);
+  while (ok && dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    ok = __get_line__(__istream, line);
     dummy_it++;
   }
-  if (dummy_it >= MAX_HEADER_LINES) {
+  if (!ok || dummy_it >= MAX_HEADER_LINES) {
     return 20;
   }
 
-- 
2.43.0


From e7ae9c69b082d2fe4aaa6a9c5a6704ff0c2be68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 13/42] fix: refuse a malformed navigation block instead of
 terminating

---
 src/navrnx.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 493d29f..ce19186 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -79,8 +79,6 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
 /// @param[in] inp Input file (nav RINEX v3) stream, placed before (aka first
 ///                line to be read is:) "SV/ EPOCH / SV CLK"
 /// @return    Anything other than 0 denotes an error.
-/// @todo the line toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line+3); may
-/// throw! what can i do about this?
 int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
   char *str_end;
@@ -95,8 +93,16 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   if (!__get_line__(inp, line)) {
     return 1;
   }
-  sys__ = ngpt::char_to_satsys(*line);
-  toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  // resolve the epoch only from its own columns, aka [3,23)
+  char epoch[21] = {'\0'};
+  std::memcpy(epoch, line + 3, 20);
+  try {
+    sys__ = ngpt::char_to_satsys(*line);
+    toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(epoch);
+  } catch (std::exception &) {
+    return 2;
+  }
+  errno = 0;
   prn__ = std::strtol(line + 1, &str_end, 10);
   if (!prn__ || errno == ERANGE) {
     errno = 0;
@@ -181,14 +187,14 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
 
   // set ToE
-#ifdef DEBUG
-  // assert we don't have fractional seconds!
+  // make sure we don't have fractional seconds!
   if (sys__ == SATELLITE_SYSTEM::glonass)
-    assert(std::abs(data__[2] - (int)data__[2]) < 1e-15);
+    if (!(std::abs(data__[2] - (int)data__[2]) < 1e-15))
+      return 9;
   if (sys__ == SATELLITE_SYSTEM::gps || sys__ == SATELLITE_SYSTEM::galileo ||
       sys__ == SATELLITE_SYSTEM::beidou)
-    assert(std::abs(data__[11] - (int)data__[11]) < 1e-15);
-#endif
+    if (!(std::abs(data__[11] - (int)data__[11]) < 1e-15))
+      return 9;
   if (sys__ == SATELLITE_SYSTEM::gps || sys__ == SATELLITE_SYSTEM::glonass ||
       sys__ == SATELLITE_SYSTEM::galileo || sys__ == SATELLITE_SYSTEM::beidou) {
     toe__ = this->toe2date<ngpt::seconds>();
-- 
2.43.0


From 78ea48ebb8c59d7786f7746979ca148fa7d2ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 14/42] fix: the end of a navigation file is no error and can
 be rewound

---
 src/navrnx.cpp | 11 +++++++++++
 src/navrnx.hpp |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index ce19186..efbdb9b 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -265,6 +265,8 @@ int NavigationRnx::read_header() noexcept {
   }
 
   // Mark the end of header
+  if (__istream.eof())
+    __istream.clear();
   __end_of_head = __istream.tellg();
 
   // All done !
@@ -278,6 +280,8 @@ int NavigationRnx::read_header() noexcept {
 ///           = 0 All ok; block resolved & nav assigned
 ///           > 0 Error; block not resolved
 int NavigationRnx::read_next_record(NavDataFrame &nav) noexcept {
+  if (__istream.eof())
+    __istream.clear();
 #ifdef DEBUG
   if (!__istream.good())
     return 50;
@@ -301,6 +305,8 @@ int NavigationRnx::read_next_record(NavDataFrame &nav) noexcept {
 ///           = 0 All ok; satellite system resolved
 ///           > 0 Error; satellite system not resolved
 int NavigationRnx::ignore_next_block() noexcept {
+  if (__istream.eof())
+    __istream.clear();
 #ifdef DEBUG
   if (!__istream.good())
     return 50;
@@ -336,6 +342,8 @@ int NavigationRnx::ignore_next_block() noexcept {
 ///           = 0 All ok; satellite system resolved
 ///           > 0 Error; satellite system not resolved
 ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
+  if (__istream.eof())
+    __istream.clear();
 #ifdef DEBUG
   if (!__istream.good()) {
     status = 10;
@@ -360,6 +368,7 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
 /// @details Set the nav RINEX stream to end of header, ready to restart
 ///          reading nav data blocks
 void NavigationRnx::rewind(pos_type pos) noexcept {
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
@@ -382,6 +391,8 @@ void NavigationRnx::rewind(pos_type pos) noexcept {
 ///                     * >0 An error occured
 int NavigationRnx::find_next(pos_type &curpos, NavDataFrame &frame,
                              SATELLITE_SYSTEM sys, int prn) noexcept {
+  if (__istream.eof())
+    __istream.clear();
 #ifdef DEBUG
   if (!__istream.good())
     return 50;
diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 2a748e5..dd4493b 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -638,6 +638,8 @@ public:
   int find_next_valid(const ngpt::datetime<T> &t, pos_type &curpos,
                       NavDataFrame &frame, SATELLITE_SYSTEM sys,
                       int prn) noexcept {
+    if (__istream.eof())
+      __istream.clear();
     // std::cout<<"\n$$$[DEBUG] Updating msg for
     // t="<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(t);
 #ifdef DEBUG
-- 
2.43.0


From 25d2d25fe3d6eda262bfc2109a7f7c59a65260f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 15/42] fix: no endless search at a navigation block of no
 known system

---
 src/navrnx.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index efbdb9b..6e07fba 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -311,7 +311,7 @@ int NavigationRnx::ignore_next_block() noexcept {
   if (!__istream.good())
     return 50;
 #endif
-  char s = __istream.peek();
+  int s = __istream.peek();
   if (s == EOF)
     return clear_stream(-1);
 
@@ -325,6 +325,8 @@ int NavigationRnx::ignore_next_block() noexcept {
   char line[MAX_RECORD_CHARS];
   int last_line_recs = 0;
   int lines_in_block = __lines_per_satsys_v3__(sys, last_line_recs);
+  if (lines_in_block < 0)
+    return 3;
   // read and skip lines
   for (int ln = 0; ln < lines_in_block; ln++) {
     if (!__istream.getline(line, MAX_RECORD_CHARS)) {
@@ -351,7 +353,7 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
   }
 #endif
   status = 0;
-  char s = __istream.peek();
+  int s = __istream.peek();
   if (s == EOF) {
     status = clear_stream(-1);
     return SATELLITE_SYSTEM::mixed;
-- 
2.43.0


From eaa1aeafd4e327c8b142241ff571819072579bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 16/42] fix: find_next_valid did not accept any satellite for
 prn -1

---
 src/navrnx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index dd4493b..a38c294 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -656,7 +656,7 @@ public:
       if (csys == sys) {
         if ((status = this->read_next_record(frame)))
           return clear_stream(status);
-        if (prn == frame.prn()) {
+        if (prn == -1 || prn == frame.prn()) {
           auto toc = frame.toc<milliseconds>();
           // std::cout<<" found msg with ToC
           // "<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(toc); are we too far
-- 
2.43.0


From 598b00002d1cb2ca1dd8846b4aad59a69545fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 17/42] fix: relativistic clock term at the eccentric anomaly
 of the epoch

---
 src/navrnx.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index a38c294..6d118ed 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -412,7 +412,10 @@ private:
       double n0(
           std::sqrt(MI_SYS / (A * A * A))); //  Computed mean motion (rad/sec)
       double n(n0 + data__[5]);             //  Corrected mean motion
-      double Mk(data__[6] + n * dt);        //  Mean anomaly
+      // Mean anomaly (note that its reference time is ToE)
+      double tk(dt + ref2toe<seconds>(toc__) -
+                toe__.sec().to_fractional_seconds());
+      double Mk(data__[6] + n * tk);
       double E(Mk);
       double e(data__[8]);
       int i;
-- 
2.43.0


From f3d22b8a4c4a9d79fca8a2c61bbd9bdec176c541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 18/42] fix: GLONASS reference time when clock epoch and frame
 time are in different weeks

---
 src/navrnx.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 6d118ed..3992ef1 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -530,6 +530,11 @@ private:
 #endif
     // days difference (if any)
     int offset = dw_toc - dw_toe;
+    // ToC and message frame time can be in different weeks
+    if (offset > 3)
+      offset -= 7;
+    else if (offset < -3)
+      offset += 7;
     // seconds of day (for ToE)
     long sd_toe = sw_toe % 86400L;
 #ifdef DEBUG
-- 
2.43.0


From 3396292ef0dbac16f951af42c2925a927d3954aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 19/42] fix: integrate GLONASS states exactly to the requested
 epoch

---
 src/glonav.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glonav.cpp b/src/glonav.cpp
index 44614b0..824fa5a 100644
--- a/src/glonav.cpp
+++ b/src/glonav.cpp
@@ -321,6 +321,9 @@ int NavDataFrame::glo_ecef(double t_sec, double *state) const noexcept {
   // Perform Runge-Kutta 4th
   // while (std::abs(ti-t_lim)>1e-9 && ++max_it<1500) {
   while (h > 0 ? ti < t_lim : ti > t_lim && ++max_it < 1500) {
+    // the last step ends at the requested instant
+    if (std::abs(t_lim - ti) < std::abs(h))
+      h = t_lim - ti;
     // compute k1
     glo_state_deriv(yti, acc, k1);
     // compute k2
-- 
2.43.0


From 9cda6c07251044a4e2701aed815dfa3a2538a413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 20/42] fix: accept blank spare records of BeiDou and IRNSS
 navigation blocks

---
 src/navrnx.cpp | 72 ++++++++++++++++++++++----------------------------
 1 file changed, 32 insertions(+), 40 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 6e07fba..30a861d 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -71,6 +71,25 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
   return lines_to_read;
 }
 
+/// @brief Check if a record is marked as spare (aka it can be blank) in the
+///        nav. RINEX v3.x data block of a satellite system
+/// @param[in] s   SATELLITE_SYSTEM
+/// @param[in] idx Index of the record (as in NavDataFrame::data__)
+static bool __is_spare_record_v3__(ngpt::SATELLITE_SYSTEM s,
+                                   int idx) noexcept {
+  using ngpt::SATELLITE_SYSTEM;
+  switch (s) {
+  case SATELLITE_SYSTEM::galileo:
+    return idx == 22;
+  case SATELLITE_SYSTEM::beidou:
+    return idx == 20 || idx == 22;
+  case SATELLITE_SYSTEM::irnss:
+    return idx == 20 || idx == 22 || idx == 26;
+  default:
+    return false;
+  }
+}
+
 /// @details: Resolve a Nav. RINEX v3.x data block to a NavDataFrame. The
 ///           function expect that the first line to be read is:
 ///           "SV/ EPOCH / SV CLK". Depending on the satellite system (to be
@@ -121,48 +140,21 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   if (lines_in_block < 0) {
     return 4;
   }
-  // read all but the last line (** all but galileo or beidou **)
-  if (sys__ != SATELLITE_SYSTEM::galileo && sys__ != SATELLITE_SYSTEM::beidou) {
-    for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!__get_line__(inp, line)) {
-        return 5;
-      }
-      // replace 'D' or 'd' with 'e'
-      __for2cpp__(line);
-      // read 4 doubles into data__
-      if (!__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
-        errno = 0;
-        return 6;
-      }
+  // read all but the last line
+  for (ln = 0; ln < lines_in_block - 1; ln++) {
+    if (!__get_line__(inp, line)) {
+      return 5;
     }
-  } else { // galileo and beidou have an empty record in line #5
-    for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!__get_line__(inp, line)) {
-        return 5;
-      }
-      // replace 'D' or 'd' with 'e'
-      __for2cpp__(line);
-      // read 4 doubles into data__
-      if (ln != 4) {
-        if (!__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
-          errno = 0;
-          return 6;
-        }
-      } else if (sys__ == SATELLITE_SYSTEM::galileo) {
-        if (!__char2double__<3, 19>(line + 4, data__ + 3 + ln * 4)) {
-          errno = 0;
-          return 6;
-        }
-      } else { // beidou: the second record is a spare, it can be blank
-        double *data = data__ + 3 + ln * 4;
-        if (std::strlen(line) < 4 + 2 * 19 ||
-            !__char2double__<1, 19>(line + 4, data) ||
-            !__char2double__<1, 19>(line + 4 + 2 * 19, data + 2)) {
-          errno = 0;
+    // replace 'D' or 'd' with 'e'
+    __for2cpp__(line);
+    // read 4 doubles into data__; spare records can be blank
+    for (int r = 0; r < 4; r++) {
+      double *data = data__ + 3 + ln * 4 + r;
+      if (!__char2double__<1, 19>(line + 4 + r * 19, data)) {
+        errno = 0;
+        if (!__is_spare_record_v3__(sys__, data - data__))
           return 6;
-        }
-        if (!__char2double__<1, 19>(line + 4 + 19, data + 1))
-          data[1] = 0e0;
+        *data = 0e0;
       }
     }
   }
-- 
2.43.0


From 2c2de8656989257fe1f074426e2f330a6a7d29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 21/42] fix: read every observation header line once and from
 its own columns

---
 src/obsrnx.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ef2740a..fbc715e 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -31,6 +31,14 @@ const std::size_t eoh_size{std::strlen("END OF HEADER")};
 constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 #endif
 
+/// @brief Read a (header) line to a buffer of size N; all characters of the
+///        buffer following the line are set to '\0' (a line can be shorter than
+///        the columns we want to resolve).
+template <int N> static bool __get_line__(std::istream &is, char (&line)[N]) {
+  std::memset(line, 0, N);
+  return static_cast<bool>(is.getline(line, N));
+}
+
 /// Resolve a RINEX observation using the relative string; this string, of type:
 /// (F14.3 I1 I1) is resolved as:
 /// F14.3 -> the actual value of the observation (if empty use the
@@ -173,7 +181,7 @@ int ObservationRnx::read_header() noexcept {
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  __get_line__(__istream, line);
   __version = std::strtof(line, &str_end);
   if (str_end == line)
     return 10; // transformation to float has failed
@@ -190,10 +198,9 @@ int ObservationRnx::read_header() noexcept {
   int dummy_it = 0;
   std::size_t szt;
   char *end;
-  __istream.getline(line, MAX_HEADER_CHARS);
-  while (dummy_it < MAX_HEADER_LINES &&
+  bool ok = __get_line__(__istream, line);
+  while (ok && dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
       __marker_name = ngpt::rtrim(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
@@ -253,13 +260,16 @@ int ObservationRnx::read_header() noexcept {
         return 61;
       }
     }
+    ok = __get_line__(__istream, line);
     dummy_it++;
   }
-  if (dummy_it >= MAX_HEADER_LINES) {
+  if (!ok || dummy_it >= MAX_HEADER_LINES) {
     return 20;
   }
 
   // Mark the end of header
+  if (__istream.eof())
+    __istream.clear();
   __end_of_head = __istream.tellg();
 
   // All done !
-- 
2.43.0


From 7a1a9123e57f1c1f9e11a06eb23b0093ce273063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 22/42] fix: accept 13, 26, ... observation types of a
 satellite system

---
 src/obsrnx.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index fbc715e..7892233 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -329,8 +329,9 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     }
     ++resolved;
     ++vecsz;
-    if (resolved == 13) {
-      __istream.getline(line, MAX_HEADER_CHARS);
+    // a new line follows only if there are more types to resolve
+    if (resolved == 13 && vecsz < obsnum) {
+      __get_line__(__istream, line);
       if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
-- 
2.43.0


From db4222d3e56529e6499a8c0fdc2e1af04805f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 23/42] fix: keep marker, receiver and antenna names with
 blanks in between

---
 src/obsrnx.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 7892233..8756509 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -169,6 +169,7 @@ int ObservationRnx::max_obs() const noexcept {
 ///       # OF SATELLITES
 ///       PRN / # OF OBS
 int ObservationRnx::read_header() noexcept {
+  using ngpt::str_algorithm_details::StrSearchPolicyEnd;
   char line[MAX_HEADER_CHARS];
   char *str_end;
 
@@ -202,17 +203,18 @@ int ObservationRnx::read_header() noexcept {
   while (ok && dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
-      __marker_name = ngpt::rtrim(line, szt, 60);
+      __marker_name = rtrim<StrSearchPolicyEnd>(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
                              std::strlen("MARKER NUMBER"))) {
-      __marker_number = ngpt::rtrim(line, szt, 20);
+      __marker_number = rtrim<StrSearchPolicyEnd>(line, szt, 20);
     } else if (!std::strncmp(line + 60, "REC # / TYPE / VERS",
                              std::strlen("REC # / TYPE / VERS"))) {
-      __receiver_number = ngpt::rtrim(line, szt, 20);
-      __receiver_type = ngpt::rtrim(line + 20, szt, 20);
+      __receiver_number = rtrim<StrSearchPolicyEnd>(line, szt, 20);
+      __receiver_type = rtrim<StrSearchPolicyEnd>(line + 20, szt, 20);
     } else if (!std::strncmp(line + 60, "ANT # / TYPE",
                              std::strlen("ANT # / TYPE"))) {
-      ReceiverAntenna ant(ngpt::rtrim(line + 20, szt, 20));
+      // the radome is written at the end of the field
+      ReceiverAntenna ant(rtrim<StrSearchPolicyEnd>(line + 20, szt, 20));
       if (!ngpt::string_is_empty(line, 20))
         ant.set_serial_nr(line);
       __antenna = ant;
-- 
2.43.0


From b5d28f7ee3f8d21bdfef7eb9c2f8b26c44f52bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 24/42] fix: refuse malformed observation header fields instead
 of terminating

---
 src/obsrnx.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 8756509..616adbd 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -238,8 +238,9 @@ int ObservationRnx::read_header() noexcept {
         return szt;
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              std::strlen("RCV CLOCK OFFS APPL"))) {
+      errno = 0;
       int i = std::strtol(line, &end, 10);
-      if ((errno || (line + 3) == end) || (i != 0 && i != 1)) {
+      if ((errno || line == end) || (i != 0 && i != 1)) {
         errno = 0;
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"RCV CLOCK OFFS APPL\"";
@@ -257,7 +258,7 @@ int ObservationRnx::read_header() noexcept {
                              std::strlen("TIME OF FIRST OBS"))) {
       try {
         __epoch_start = ngpt::strptime_ymd_hms<ngpt::microseconds>(line);
-      } catch (std::invalid_argument &e) {
+      } catch (std::exception &e) {
         std::cerr << "\n[ERROR] " << e.what();
         return 61;
       }
@@ -301,13 +302,22 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
 
   char *end;
   std::vector<ngpt::ObservationCode> obsvec;
-  auto satsys = ngpt::char_to_satsys(line[0]);
+  SATELLITE_SYSTEM satsys;
+  try {
+    satsys = ngpt::char_to_satsys(line[0]);
+  } catch (std::exception &) {
+    std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
+                 "field: \"SYS / # / OBS TYPES\"";
+    std::cerr << "\n        Fatal; unknown satellite system!";
+    return 5;
+  }
   if (__obstmap.find(satsys) != __obstmap.end()) {
     std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
                  "field: \"SYS / # / OBS TYPES\"";
     std::cerr << "\n        Fatal Already resolved this satellite system!";
     return 1;
   }
+  errno = 0;
   int obsnum = std::strtol(line + 3, &end, 10);
   if (errno || (line + 3) == end) {
     errno = 0;
-- 
2.43.0


From c17ed510bfe4d60913ca49f438c34bcc227f2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 25/42] fix: read observation lines of any length and keep the
 line buffer on a move

---
 src/obsrnx.cpp | 34 ++++++++++++++++++----------------
 src/obsrnx.hpp |  8 ++------
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 616adbd..97a29b7 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -82,7 +82,7 @@ int RawRnxObs__::resolve(char *str) noexcept {
 ///          open the input stream (i.e. _istream).
 ///          If the file is successefuly opened, the constructor will read
 ///          the header and assign info.
-///          It will also allocate memory for the __buf pointer (using the
+///          It will also allocate memory for the line buffer __buf (using the
 ///          collected head information).
 /// @param[in] filename  The filename of the Rinex file
 ObservationRnx::ObservationRnx(const char *filename)
@@ -96,19 +96,13 @@ ObservationRnx::ObservationRnx(const char *filename)
         "[ERROR] Failed to read (obs) RINEX header; Error Code: " +
         std::to_string(j));
   }
-  std::size_t maxobs = this->max_obs();
-  __buf_sz = maxobs * 16 + 4;
-  __buf = new char[__buf_sz];
+  __buf.reserve(this->max_obs() * 16 + 4);
 }
 
-/// Destructor; close the stream and delete the allocated buffer
+/// Destructor; close the stream
 ObservationRnx::~ObservationRnx() noexcept {
   if (__istream.is_open())
     __istream.close();
-  if (__buf) {
-    __buf_sz = 0;
-    delete[] __buf;
-  }
 }
 
 /// Loop through the observables of every satellite system, and return the
@@ -784,20 +778,24 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
 #endif
 
   std::memset(tbuf, '\0', 17);
-  std::memcpy(tbuf, __buf + 1, 2);
+  const char *line = __buf.c_str();
+  std::size_t len = std::strlen(line);
+  if (len < 3)
+    return 1;
+  std::memcpy(tbuf, line + 1, 2);
+  errno = 0;
   prn = std::strtol(tbuf, &end, 10);
   if ((errno || tbuf == end) || (prn < 1 || prn > 99))
     return 1;
 
   RawRnxObs__ raw_obs;
   int k = 0;
-  std::size_t len = std::strlen(__buf);
   for (const auto &obsrv : sysobs) { // For every observable in vector
     double obsval = 0e0;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
       if (len >= idx + 16) { // line ends before column of observable
-        std::memcpy(tbuf, __buf + idx, 16);
+        std::memcpy(tbuf, line + idx, 16);
         if (raw_obs.resolve(tbuf))
           return 2;
         if (raw_obs.__val != RNXOBS_MISSING_VAL) {
@@ -881,9 +879,13 @@ int ObservationRnx::collect_epoch(
   // loop through every satellite in epoch
   while (sat_it < numsats) {
     // resolve satellite system
-    __istream.getline(__buf, __buf_sz);
+    if (!std::getline(__istream, __buf)) {
+      std::cerr << "\n[ERROR] ObservationRnx::collect_epoch() Failed to read "
+                   "satellite record";
+      return 2;
+    }
     try {
-      s = char_to_satsys(*__buf);
+      s = char_to_satsys(*__buf.c_str());
     } catch (std::exception &e) {
       std::cerr << "\n[ERROR] ObservationRnx::collect_epoch() Failed to "
                    "resolve Satellite System";
@@ -960,11 +962,11 @@ int ObservationRnx::read_next_epoch(
   sats = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
-    __istream.getline(__buf, __buf_sz);
+    std::getline(__istream, __buf);
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
-    if ((j = __resolve_epoch_304__(__buf, mjd, secofday, flag, num_sats,
+    if ((j = __resolve_epoch_304__(__buf.c_str(), mjd, secofday, flag, num_sats,
                                    rcvr_coff)))
       return 20 + j;
     // resolve observation block
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 996437b..0516942 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -166,12 +166,8 @@ private:
   ///< descriptors (Type, Band, Attribute)
   ngpt::datetime<ngpt::microseconds> __epoch_start; ///< time of first obs
   std::map<SATELLITE_SYSTEM, std::vector<ObservationCode>> __obstmap;
-  ///< A char buffer which can hold an observation line
-  ///< with maximum number of observables
-  char *__buf{nullptr};
-  ///< Length of __buf, aka length of maximum observation
-  ///< line in file (this->max_obs()*16+4)
-  std::size_t __buf_sz{0};
+  ///< The (epoch or observation) line currently resolved
+  std::string __buf;
 
 }; // ObservationRnx
 
-- 
2.43.0


From e135ae2bb77004880be09331786519cac8e34658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 26/42] fix: observation values from their 14 columns; a
 combination with a missing term is missing

---
 src/obsrnx.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 97a29b7..b96d88d 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -66,8 +66,14 @@ int RawRnxObs__::resolve(char *str) noexcept {
     __val = RNXOBS_MISSING_VAL;
     return 0;
   }
-  __val = std::strtod(str, &end);
-  if (errno || str == end) {
+  // the value is written in the first 14 columns only; the digits (if any) at
+  // the two columns following, are not part of it
+  char value[15];
+  std::memcpy(value, str, 14);
+  value[14] = '\0';
+  errno = 0;
+  __val = std::strtod(value, &end);
+  if (errno || value == end) {
     errno = 0;
     return 1;
   }
@@ -792,23 +798,27 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
   int k = 0;
   for (const auto &obsrv : sysobs) { // For every observable in vector
     double obsval = 0e0;
+    bool missing = false;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
-      if (len >= idx + 16) { // line ends before column of observable
-        std::memcpy(tbuf, line + idx, 16);
+      if (len >= idx + 14) {
+        // the line can end right after the value (aka no LLI and/or SSI)
+        std::memset(tbuf, ' ', 16);
+        std::memcpy(tbuf, line + idx, std::min<std::size_t>(16, len - idx));
         if (raw_obs.resolve(tbuf))
           return 2;
-        if (raw_obs.__val != RNXOBS_MISSING_VAL) {
-          obsval += raw_obs.__val * pr.second;
-        } else {
-          --status;
-          obsval = RNXOBS_MISSING_VAL;
-        }
+      } else { // line ends before column of observable
+        raw_obs.__val = RNXOBS_MISSING_VAL;
+      }
+      if (raw_obs.__val != RNXOBS_MISSING_VAL) {
+        obsval += raw_obs.__val * pr.second;
       } else {
-        raw_obs.__val = obsval = RNXOBS_MISSING_VAL;
+        --status;
+        missing = true;
       }
     }
-    vals[k] = obsval;
+    // an observable is missing, if any of its elements is missing
+    vals[k] = missing ? RNXOBS_MISSING_VAL : obsval;
     ++k;
   }
 
-- 
2.43.0


From 0ac70f46fc0d32c55a9b2a55535be6eaef548ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 27/42] fix: skip event records between observation epochs and
 refuse malformed epoch lines

---
 src/obsrnx.cpp | 84 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 29 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index b96d88d..98962ae 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -377,7 +377,9 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
 ///                  * 0 -> OK
 ///                  * 1 -> power failure between previous and current epoch
 ///                  *>1 -> special event
-/// @param[out] num_sats  Number of satellites observed in current epoch
+/// @param[out] num_sats  Number of satellites observed in current epoch; for
+///                  special events (flag > 1) the number of records following.
+///                  In this case, only flag and num_sats are resolved
 /// @param[out] rcvr_coff Receiver clock offset (seconds, optional); if empty,
 ///                       it is set to 0
 /// @warning error codes (at return) should be in range [0,10)
@@ -398,8 +400,34 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
     return 1;
   }
 
-  // resolve the day as Modified Julian Day
   char *end;
+
+  // resolve the epoch flag
+  flag = cline[31] - '0';
+  if (flag < 0 || flag > 6) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
+                 "resolve epoch flag";
+    std::cerr << "\n        Line was: \"" << cline << "\"";
+    return 6;
+  }
+
+  // resolve num of satellites (or records) in epoch
+  char nbuf[4] = {cline[32], cline[33], cline[34], '\0'};
+  errno = 0;
+  num_sats = static_cast<int>(std::strtol(nbuf, &end, 10));
+  if (errno || nbuf == end || num_sats < 0) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
+                 "resolve num sats";
+    std::cerr << "\n        Line was: \"" << cline << "\"";
+    errno = 0;
+    return 4;
+  }
+
+  // special event; there are no observations and the date can be blank
+  if (flag > 1)
+    return 0;
+
+  // resolve the day as Modified Julian Day
   const char *start = cline + 2;
   int dints[5];
   for (int i = 0; i < 5; i++) {
@@ -413,10 +441,13 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
     }
     start = ++end;
   }
-#ifdef DEBUG
-  day_of_month dom(dints[2]);
-  assert(dom.is_valid(year(dints[0]), month(dints[1])));
-#endif
+  if (dints[1] < 1 || dints[1] > 12 ||
+      !day_of_month(dints[2]).is_valid(year(dints[0]), month(dints[1]))) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() invalid "
+                 "date of epoch";
+    std::cerr << "\n        Line was: \"" << cline << "\"";
+    return 2;
+  }
   mjd = ngpt::modified_julian_day(year(dints[0]), month(dints[1]),
                                   day_of_month(dints[2]));
 
@@ -431,24 +462,11 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   }
   sec = (dints[3] * 60e0 + dints[4]) * 60e0 + rsec;
 
-  // resolve the epoch flag
-  flag = cline[31] - '0';
-
-  // resolve num of satellites in epoch
-  num_sats = static_cast<int>(std::strtol(cline + 32, &end, 10));
-  if (errno || start == end) {
-    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
-                 "resolve num sats";
-    std::cerr << "\n        Line was: \"" << cline << "\"";
-    errno = 0;
-    return 4;
-  }
-
   // resolve clock offset if any
-  if (lnlen > 41) {
-    rcvr_coff =
-        string_is_empty(cline + 41) ? 0e0 : std::strtod(cline + 41, &end);
-    if (errno || start == end) {
+  rcvr_coff = 0e0;
+  if (lnlen > 41 && !string_is_empty(cline + 41)) {
+    rcvr_coff = std::strtod(cline + 41, &end);
+    if (errno || cline + 41 == end) {
       std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed "
                    "to resolve receiver clock offset";
       std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -971,14 +989,22 @@ int ObservationRnx::read_next_epoch(
   int c, j;
   sats = 0;
   if ((c = __istream.peek()) != EOF) {
-    // if not EOF, read next line; it should be an epoche header line
-    std::getline(__istream, __buf);
     double rcvr_coff;
     int flag, num_sats;
-    // resolve epoch header
-    if ((j = __resolve_epoch_304__(__buf.c_str(), mjd, secofday, flag, num_sats,
-                                   rcvr_coff)))
-      return 20 + j;
+    // read next epoch header line; skip special events and their records
+    do {
+      if (!std::getline(__istream, __buf)) {
+        __istream.clear();
+        return -1;
+      }
+      // resolve epoch header
+      if ((j = __resolve_epoch_304__(__buf.c_str(), mjd, secofday, flag,
+                                     num_sats, rcvr_coff)))
+        return 20 + j;
+      for (int i = 0; flag > 1 && i < num_sats; i++)
+        if (!std::getline(__istream, __buf))
+          return 29;
+    } while (flag > 1);
     // resolve observation block
     if ((j = collect_epoch(num_sats, sats, mmap, satobs)))
       return 30 + j;
-- 
2.43.0


From b1f4c8051157250a5c84808e835ddeeacd17ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 28/42] fix: read the last epoch of a file without final
 newline; rewind after any status

---
 src/obsrnx.cpp | 9 ++++-----
 src/obsrnx.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 98962ae..cba75cd 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -1008,12 +1008,11 @@ int ObservationRnx::read_next_epoch(
     // resolve observation block
     if ((j = collect_epoch(num_sats, sats, mmap, satobs)))
       return 30 + j;
+    // the epoch is complete, even if its last line is not followed by a newline
+    return 0;
   }
-  if (__istream.eof()) {
-    __istream.clear();
-    return -1;
-  }
-  return 0;
+  __istream.clear();
+  return -1;
 }
 
 /// This function will return a vector with a big enough size to read all epochs
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 0516942..8589722 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -57,7 +57,10 @@ public:
       std::is_nothrow_move_assignable<std::ifstream>::value) = default;
 
   /// @brief Set the stream to end of header
-  void rewind() noexcept { __istream.seekg(__end_of_head); }
+  void rewind() noexcept {
+    __istream.clear();
+    __istream.seekg(__end_of_head);
+  }
 
   /// @brief Max observables of any satellite system
   int max_obs() const noexcept;
-- 
2.43.0


From 9ba16e48daec74057472adec44136266afbeef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 29/42] fix: refuse epochs with more satellites than the output
 vector can hold

---
 src/obsrnx.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index cba75cd..7dbc77a 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -897,9 +897,6 @@ int ObservationRnx::collect_epoch(
       std::vector<std::pair<ngpt::Satellite, std::vector<double>>>::iterator;
 
   satscollected = 0;
-#ifdef DEBUG
-  assert(satobs.size() >= (std::size_t)numsats);
-#endif
   SATELLITE_SYSTEM s;
   int sat_it = 0, prn;
   OutputVecIt ovec_it = satobs.begin();
@@ -925,6 +922,11 @@ int ObservationRnx::collect_epoch(
     int status = 0;
     mmap_it it = mmap.end();
     if ((it = mmap.find(s)) != mmap.end()) {
+      if (ovec_it == satobs.end()) {
+        std::cerr << "\n[ERROR] ObservationRnx::collect_epoch() More satellites "
+                     "in epoch than the output vector can hold";
+        return 3;
+      }
       if ((status = sat_epoch_collect(mmap[s], prn, ovec_it->second)) > 0)
         return 1;
       Satellite sat(s, prn);
-- 
2.43.0


From 17c6a98cfffcf45cd2f61543f34c13ea0aa0803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 30/42] fix: sp3 header fields from their own columns,
 impossible values refused

---
 src/sp3c.cpp | 147 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 92 insertions(+), 55 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index c239596..5e17568 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -1,10 +1,13 @@
 #include "sp3c.hpp"
 #include "ggdatetime/datetime_read.hpp"
+#include "nvarstr.hpp"
 #include <algorithm>
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 
 using ngpt::Sp3c;
@@ -19,6 +22,47 @@ constexpr int MAX_HEADER_LINES{1000};
 /// Max record characters (for a navigation data block)
 constexpr int MAX_RECORD_CHARS{128};
 
+/// @brief Read a line to a buffer of size N; all characters of the buffer
+///        following the line are set to '\0' (a line can be shorter than the
+///        columns we want to resolve, e.g. without any flags). Characters that
+///        do not fit in the buffer are skipped.
+/// @return false if there are no more lines to read
+template <int N> static bool __get_line__(std::istream &is, char (&line)[N]) {
+  std::memset(line, 0, N);
+  if (is.getline(line, N))
+    return true;
+  if (is.gcount() == N - 1 && !is.eof()) {
+    is.clear(is.rdstate() & ~std::ios_base::failbit);
+    is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+    return true;
+  }
+  return false;
+}
+
+/// @brief Resolve an integer written in columns [start, start+M) of a line
+/// @return false if there is no integer there
+template <int M> static bool __get_int__(const char *start, int &i) noexcept {
+  char field[M + 1] = {'\0'}, *end;
+  std::memcpy(field, start, strnlen(start, M));
+  errno = 0;
+  i = static_cast<int>(std::strtol(field, &end, 10));
+  const bool ok = !errno && end != field;
+  errno = 0;
+  return ok;
+}
+
+/// @brief Check if the integers form a date and time of day
+static bool __valid_date__(int y, int m, int d, int hh, int mm, double sec) {
+  return y > 0 && m > 0 && m < 13 &&
+         ngpt::day_of_month(d).is_valid(ngpt::year(y), ngpt::month(m)) &&
+         hh >= 0 && hh < 24 && mm >= 0 && mm < 60 && sec >= 0e0 && sec < 61e0;
+}
+
+/// @brief (Fractional) seconds to the nearest microsecond
+static ngpt::microseconds __to_microsec__(double sec) noexcept {
+  return ngpt::microseconds(std::lround(sec * 1e6));
+}
+
 /// @details Sp3c constructor, using a filename. The constructor will
 ///          initialize (set) the _filename attribute and also (try to)
 ///          open the input stream (i.e. _istream).
@@ -51,7 +95,6 @@ void Sp3c::rewind(pos_type pos) noexcept {
 /// @return  Anything other than 0 denotes an error.
 int Sp3c::read_header() noexcept {
   char line[MAX_HEADER_CHARS];
-  char *str_end;
   int dummy_it = 0;
 
   // The stream should be open by now!
@@ -63,82 +106,77 @@ int Sp3c::read_header() noexcept {
 
   // Read the first line. Error codes 10-19
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  __get_line__(__istream, line);
   if (*line != '#')
     return 10; // validate version
   version__ = *(line + 1);
   if (version__ != 'c' && version__ != 'd')
     return 10;
-  int year = std::strtol(line + 3, &str_end, 10); // read year
-  if (!year || errno == ERANGE) {
-    errno = 0;
+  int year, month, dom, hour, minute;
+  double sec;
+  if (!__get_int__<4>(line + 3, year)) // read year
     return 11;
-  }
-  int month = std::strtol(line + 8, &str_end, 10); // read month
-  if (!month || errno == ERANGE) {
-    errno = 0;
+  if (!__get_int__<2>(line + 8, month)) // read month
     return 12;
-  }
-  int dom = std::strtol(line + 11, &str_end, 10); // read day of month
-  if (!dom || errno == ERANGE) {
-    errno = 0;
+  if (!__get_int__<2>(line + 11, dom)) // read day of month
     return 13;
-  }
-  int hour = std::strtol(line + 14, &str_end, 10); // read hour of day
-  if (errno == ERANGE || str_end == line + 14) {
-    errno = 0;
+  if (!__get_int__<2>(line + 14, hour)) // read hour of day
     return 14;
-  }
-  int minute = std::strtol(line + 17, &str_end, 10); // read hour of day
-  if (errno == ERANGE || str_end == line + 17) {
-    errno = 0;
+  if (!__get_int__<2>(line + 17, minute)) // read minute of hour
     return 15;
+  if (!ngpt::__char2double__<1, 11>(line + 20, &sec)) { // read seconds
+    errno = 0;
+    return 17;
   }
-  double sec = std::strtod(line + 20, &str_end); // read seconds
+  if (!__valid_date__(year, month, dom, hour, minute, sec))
+    return 18;
 
-  num_epochs__ = std::strtol(line + 32, &str_end, 10); // read number of epochs
-  if (!num_epochs__ || errno == ERANGE) {
-    errno = 0;
+  // read number of epochs
+  if (!__get_int__<7>(line + 32, num_epochs__) || num_epochs__ < 1)
     return 16;
-  }
   crd_sys__ = std::string(line + 46, 5);
   orb_type__ = std::string(line + 52, 3);
-  agency__ = std::string(line + 56, 3);
+  agency__ = std::string(line + 56, 4);
 
   // all done for first line, construct the reference date
   start_epoch__ = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
-      ngpt::hours(hour), ngpt::minutes(minute),
-      ngpt::microseconds(static_cast<long>(sec * 1e6)));
+      ngpt::hours(hour), ngpt::minutes(minute), __to_microsec__(sec));
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  __get_line__(__istream, line);
   if (*line != '#' || line[1] != '#')
     return 20;
-  int gwk = std::strtol(line + 3, &str_end, 10);
-  if (!gwk || errno == ERANGE) {
-    errno = 0;
+  int gwk, mjd;
+  if (!__get_int__<4>(line + 3, gwk))
     return 21;
+  if (!ngpt::__char2double__<1, 15>(line + 8, &sec)) {
+    errno = 0;
+    return 25;
   }
-  sec = std::strtod(line + 8, &str_end);
-  // validate start epoch (#1)
+  // validate start epoch (#1); to the microsecond
   ngpt::microseconds sw;
   auto gwk1 = start_epoch__.as_gps_wsow(sw);
-  if (gwk1.as_underlying_type() != gwk || sw.to_fractional_seconds() != sec) {
+  if (gwk1.as_underlying_type() != gwk ||
+      std::abs(sw.to_fractional_seconds() - sec) > 1e-6) {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 22;
   }
-  sec = std::strtod(line + 24, &str_end);
-  interval__ = ngpt::microseconds(static_cast<long>(sec * 1e6));
-  int mjd = std::strtol(line + 39, &str_end, 10);
-  if (!mjd || errno == ERANGE) {
+  if (!ngpt::__char2double__<1, 14>(line + 24, &sec) || sec < 0e0) {
     errno = 0;
+    return 26;
+  }
+  interval__ = __to_microsec__(sec);
+  if (!__get_int__<5>(line + 39, mjd))
     return 23;
+  if (!ngpt::__char2double__<1, 15>(line + 45, &sec)) {
+    errno = 0;
+    return 27;
   }
-  sec = std::strtod(line + 45, &str_end);
+  // validate start epoch (#2); an Mjd (as double) is good to a few microseconds
   sec += mjd;
-  if (sec != start_epoch__.as_mjd()) {
+  if (std::abs(sec - start_epoch__.as_mjd()) > 1e-10) {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 24;
   }
@@ -148,16 +186,13 @@ int Sp3c::read_header() noexcept {
   // '++'
   // Error code [10,40]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  __get_line__(__istream, line);
   if (*line != '+' || line[1] != ' ')
     return 30;
-  num_sats__ = std::strtol(line + 3, &str_end, 10);
-  if (!num_sats__ || errno == ERANGE) {
-    errno = 0;
+  if (!__get_int__<3>(line + 3, num_sats__) || num_sats__ < 1)
     return 31;
-  }
   while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "+ ", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    __get_line__(__istream, line);
   }
   if (dummy_it >= MAX_HEADER_LINES) {
     return 32;
@@ -167,11 +202,11 @@ int Sp3c::read_header() noexcept {
   // no max limitation for the Sp3d files. Each satellite id line starts with '+
   // ' Error code [40,50]
   // ------------------------------------------------------------
-  // __istream.getline(line, MAX_HEADER_CHARS);
+  // __get_line__(__istream, line);
   if (*line != '+' || line[1] != '+')
     return 40;
   while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "++", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    __get_line__(__istream, line);
     char c = __istream.peek();
     if (c != '+')
       break;
@@ -183,18 +218,18 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%c'; collect the system time
   // Error code [50,60]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  __get_line__(__istream, line);
   if (*line != '%' || line[1] != 'c')
     return 50;
   time_sys__ = std::string(line + 9, 3);
-  __istream.getline(line, MAX_HEADER_CHARS);
+  __get_line__(__istream, line);
   if (*line != '%' || line[1] != 'c')
     return 51;
 
   // two line follow, starting with '%f'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    __get_line__(__istream, line);
     if (*line != '%' || line[1] != 'f')
       return 60;
   }
@@ -202,7 +237,7 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%i'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    __get_line__(__istream, line);
     if (*line != '%' || line[1] != 'i')
       return 70;
   }
@@ -211,7 +246,7 @@ int Sp3c::read_header() noexcept {
   // ------------------------------------------------------------
   char c = __istream.peek();
   while (c == '/') {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    __get_line__(__istream, line);
     if (line[1] != '*')
       return 80;
     c = __istream.peek();
@@ -220,6 +255,8 @@ int Sp3c::read_header() noexcept {
   }
 
   // Mark the end of header
+  if (__istream.eof())
+    __istream.clear();
   __end_of_head = __istream.tellg();
 
   // All done !
-- 
2.43.0


From 942dafe3dd89876c86b24924793c427257f19a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 31/42] fix: sp3 end of file, truncated files, dates and
 oversized epochs

---
 src/sp3c.cpp | 51 +++++++++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 5e17568..8c7a41a 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -82,6 +82,7 @@ Sp3c::Sp3c(const char *filename)
 }
 
 void Sp3c::rewind(pos_type pos) noexcept {
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
@@ -281,39 +282,34 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
                          std::vector<Sp3EpochSvRecord> &vec,
                          int &sats_read) noexcept {
   char line[MAX_RECORD_CHARS];
-  char *end, *start, c;
   int date[5];
-
-  if (!__istream.good())
-    return 1;
-  __istream.getline(line, MAX_RECORD_CHARS);
+  double fsec;
+
+  sats_read = 0;
+  if (!__get_line__(__istream, line)) // nothing (more) to read
+    return -1;
+  if (!std::strncmp(line, "EOF", 3)) { // stay at the EOF line
+    __istream.setstate(std::ios_base::eofbit);
+    return -1;
+  }
 
   if (line[0] != '*' || line[1] != ' ')
     return 2;
-  date[0] = std::strtol(line + 3, &end, 10);
-  if (!date[0] || errno == ERANGE) {
-    errno = 0;
+  if (!__get_int__<4>(line + 3, date[0]))
     return 5;
-  }
-  start = line + 8;
-  for (int i = 1; i < 5; i++) {
-    date[i] = std::strtol(start, &end, 10);
-    if (errno == ERANGE || end == start) {
-      errno = 0;
+  for (int i = 1; i < 5; i++)
+    if (!__get_int__<2>(line + 5 + 3 * i, date[i]))
       return 5 + i;
-    }
-    start += 3;
-  }
-  double fsec = std::strtod(start, &end);
-  if (errno == ERANGE || end == start) {
+  if (!ngpt::__char2double__<1, 11>(line + 20, &fsec)) {
     errno = 0;
     return 11;
   }
+  if (!__valid_date__(date[0], date[1], date[2], date[3], date[4], fsec))
+    return 12;
 
   t = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
-      ngpt::hours(date[3]), ngpt::minutes(date[4]),
-      ngpt::microseconds(static_cast<long>(fsec * 1e6)));
+      ngpt::hours(date[3]), ngpt::minutes(date[4]), __to_microsec__(fsec));
 
   ngpt::SATELLITE_SYSTEM sys;
   int prn, j = 0;
@@ -330,15 +326,18 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
    * 6. 'EOF' i.e. EOF
    */
   do {
-    c = __istream.peek();
-    if (c != '*') {
-      __istream.getline(line, MAX_RECORD_CHARS);
-      if (*line == 'P') { /* position and clock line */
+    if (__istream.peek() != '*') {
+      if (!__get_line__(__istream, line)) { /* no EOF line, truncated file */
+        return 13;
+      } else if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
+        if (it == vec.end()) /* more satellites than vec can hold */
+          return 14;
         *it = Sp3EpochSvRecord{sys, prn, state, flag};
         ++it;
-      } else if (!std::strncmp(line, "EOF", 3)) { /* EOF */
+      } else if (!std::strncmp(line, "EOF", 3)) { /* EOF, nothing follows */
+        __istream.setstate(std::ios_base::eofbit);
         keep_reading = false;
         j = -1;
       } else { /* any other line is irrelevant */
-- 
2.43.0


From 26fc715bbccef7224131d2101181775814be8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 32/42] fix: sp3 position values from their own columns, orbit
 prediction flag is P in column 80

---
 src/sp3c.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 8c7a41a..1d531fc 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -365,7 +365,6 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
                             std::array<double, 4> &state,
                             Sp3Flag &flag) noexcept {
-  char *end, *start;
   flag.reset();
 
   if (*line != 'P')
@@ -376,20 +375,15 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
   } catch (std::runtime_error &e) {
     return 3;
   }
-  prn = std::strtol(line + 2, &end, 10);
-  if (errno == ERANGE || end == line + 2) {
-    errno = 0;
+  if (!__get_int__<2>(line + 2, prn) || prn < 1)
     return 4;
-  }
 
-  start = line + 4;
+  // every value from its own columns
   for (int i = 0; i < 4; i++) {
-    state[i] = std::strtod(start, &end);
-    if (errno == ERANGE || end == start) {
+    if (!ngpt::__char2double__<1, 14>(line + 4 + i * 14, &state[i])) {
       errno = 0;
       return 5 + i;
     }
-    start += 14;
   }
 
   state[0] *= 1e3;
@@ -408,7 +402,7 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
     flag.set(Sp3Event::clock_prediction);
   if (line[78] == 'M')
     flag.set(Sp3Event::maneuver);
-  if (line[79] == 'E')
+  if (line[79] == 'P')
     flag.set(Sp3Event::orbit_prediction);
 
   return 0;
-- 
2.43.0


From ad324175c396455e20e64c86b9e2f9f0fc8113b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 33/42] fix: antex short lines and truncated files

---
 src/antex.cpp | 61 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 74b2de7..d9cdebd 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -2,7 +2,9 @@
 #include "ggdatetime/datetime_read.hpp"
 #include "nvarstr.hpp"
 #include <cassert>
+#include <cerrno>
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #ifdef DEBUG
 #include <iostream>
@@ -45,6 +47,23 @@ constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 ///          8*(std::size_t)((zen2-zen1)/dzen) < MAX_GRID_CHARS-10
 constexpr std::size_t MAX_GRID_CHARS{512};
 
+/// @brief Read a line to a buffer of size N; all characters of the buffer
+///        following the line are set to '\0' (a line can be shorter than the
+///        columns we want to resolve). Characters that do not fit in the buffer
+///        are skipped.
+/// @return false if there are no more lines to read
+template <int N> static bool __get_line__(std::istream &is, char (&line)[N]) {
+  std::memset(line, 0, N);
+  if (is.getline(line, N))
+    return true;
+  if (is.gcount() == N - 1 && !is.eof()) {
+    is.clear(is.rdstate() & ~std::ios_base::failbit);
+    is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+    return true;
+  }
+  return false;
+}
+
 // Forward declerationof non Antex:: functions;
 int collect_pco(std::ifstream &, ngpt::AntennaPcoList &) noexcept;
 int resolve_satellite_antenna_line(const char *, Satellite &) noexcept;
@@ -123,7 +142,7 @@ int Antex::read_header() noexcept {
 
   // Read the first line. Get version and system.
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  __get_line__(__istream, line);
   // strtod will keep on reading untill a non-valid
   // char is read. Fuck this, lets split the string
   // so that it only reads the valid chars (for version).
@@ -146,7 +165,7 @@ int Antex::read_header() noexcept {
   // Read the second line. Get PCV TYPE / REFANT.
   // If the atx is of type relative, then just return with error
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  __get_line__(__istream, line);
   if (*line != 'A') {
     return 12;
   }
@@ -154,17 +173,19 @@ int Antex::read_header() noexcept {
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
   int dummy_it = 0;
-  __istream.getline(line, MAX_HEADER_CHARS);
-  while (dummy_it < MAX_HEADER_LINES &&
+  bool ok = __get_line__(__istream, line);
+  while (ok && dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    ok = __get_line__(__istream, line);
     dummy_it++;
   }
-  if (dummy_it >= MAX_HEADER_LINES) {
+  if (!ok || dummy_it >= MAX_HEADER_LINES) {
     return 20;
   }
 
   // Mark the end of header
+  if (__istream.eof())
+    __istream.clear();
   __end_of_head = __istream.tellg();
 
   // All done !
@@ -205,7 +226,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the first line. Should be "START OF ANTENNA"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!__get_line__(__istream, line) ||
       std::strncmp(line + 60, "START OF ANTENNA", 16)) {
     if (__istream.eof()) {
       __istream.clear();
@@ -216,7 +237,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the next line. Should be "TYPE / SERIAL NO"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!__get_line__(__istream, line) ||
       std::strncmp(line + 60, "TYPE / SERIAL NO", 16)) {
     return 11;
   }
@@ -252,7 +273,8 @@ int Antex::skip_rest_of_antenna() noexcept {
 
   int dummy_it = 0;
   do {
-    __istream.getline(line, MAX_GRID_CHARS);
+    if (!__get_line__(__istream, line))
+      return 2;
     dummy_it++;
   } while (std::strncmp(line + 60, "END OF ANTENNA", 14) &&
            dummy_it < max_antenna_lines);
@@ -413,7 +435,7 @@ int check_time_interval(std::ifstream &fin,
   int max_lines = 5000;
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(line, MAX_GRID_CHARS) ||
+  if (!__get_line__(fin, line) ||
       std::strncmp(line + 60, "METH / BY / # / DATE", 20)) {
     return 10;
   }
@@ -422,7 +444,8 @@ int check_time_interval(std::ifstream &fin,
   bool from_ok = false, to_ok = false;
   ngpt::datetime<ngpt::seconds> from, to;
   do {
-    fin.getline(line, MAX_GRID_CHARS);
+    if (!__get_line__(fin, line))
+      return 13;
     if (!std::strncmp(line + 60, "VALID FROM", 10)) {
       try {
         from = ngpt::strptime_ymd_hms<ngpt::seconds>(line);
@@ -441,7 +464,7 @@ int check_time_interval(std::ifstream &fin,
     if (from_ok && to_ok)
       break;
   } while (std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
-           dummy_it < max_lines);
+           ++dummy_it < max_lines);
   // do not use the following check
   // } while (std::strncmp(line+60, "END OF ANTENNA", 14) && dummy_it <
   // max_lines); cause this may leave the stream just after the line "END OF
@@ -449,7 +472,7 @@ int check_time_interval(std::ifstream &fin,
   // will cause a whole antenna record block to be skipped. This was indeed a
   // bug (for the function find_satellite_antenna()
 
-  if (++dummy_it >= max_lines) {
+  if (dummy_it >= max_lines) {
     return 20;
   }
 
@@ -698,21 +721,21 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   }
 
   // next field is 'DAZI'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!__get_line__(fin, hline) ||
       std::strncmp(hline + 60, "DAZI", 4)) {
     // dazi = std::stof(hline+2, nullptr);
     return 2;
   }
 
   // next field is 'ZEN1 / ZEN2 / DZEN'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!__get_line__(fin, hline) ||
       std::strncmp(hline + 60, "ZEN1 / ZEN2 / DZEN", 18)) {
     return 3;
   }
 
   // next field is '# OF FREQUENCIES'
   int num_of_freqs = 0;
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!__get_line__(fin, hline) ||
       std::strncmp(hline + 60, "# OF FREQUENCIES", 16)) {
     return 4;
   } else {
@@ -726,7 +749,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   // From here up untill the block 'START OF FREQUENCY' there can be a number
   // of optional fields.
   do {
-    fin.getline(hline, MAX_HEADER_CHARS);
+    __get_line__(fin, hline);
   } while (fin && std::strncmp(hline + 60, "START OF FREQUENCY", 18));
 
   ngpt::SATELLITE_SYSTEM ss;
@@ -739,9 +762,9 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
       // wait!! this might be a frequency rms from the previous frequency
       if (!std::strncmp(hline + 60, "START OF FREQ RMS", 17)) {
         do {
-          fin.getline(gline, MAX_GRID_CHARS);
+          __get_line__(fin, gline);
         } while (fin && std::strncmp(gline + 60, "END OF FREQ RMS", 15));
-        if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+        if (!__get_line__(fin, hline) ||
             std::strncmp(hline + 60, "START OF FREQUENCY", 18)) {
           return 11;
         }
-- 
2.43.0


From fc12ebcce38d4aaf7d490fbec94d90468699fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 34/42] fix: antex searches report absent antennas and keep
 nothing of earlier searches or blocks

---
 src/antex.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index d9cdebd..c2daa8f 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -304,11 +304,13 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
                                       ReceiverAntenna &ant_out,
                                       pos_type &ant_pos) noexcept {
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant, best_match_ant;
   pos_type best_match_pos;
-  int stat1, stat2;
+  bool model_found = false;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant))) {
     if (cur_ant.is_same(ant_in)) {
@@ -319,6 +321,7 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
     if (cur_ant.compare_model(ant_in) && !cur_ant.has_serial()) {
       best_match_ant = cur_ant;
       best_match_pos = __istream.tellg();
+      model_found = true;
     }
     if ((stat2 = skip_rest_of_antenna()))
       break;
@@ -327,6 +330,9 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
   if (stat1 > 0 || stat2) {
     return 1;
   }
+  // no such model+radome
+  if (!model_found)
+    return 1;
   ant_out = best_match_ant;
   ant_pos = best_match_pos;
   return 0;
@@ -512,17 +518,19 @@ int check_time_interval(std::ifstream &fin,
 int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
                                   const ngpt::datetime<ngpt::seconds> &at,
                                   pos_type &ant_pos, Satellite *sv) noexcept {
-  char line[MAX_HEADER_CHARS];
+  // will hold the first 60 chars of the TYPE / SERIAL NO lines
+  char line[MAX_HEADER_CHARS] = {'\0'};
 
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant;
-  Satellite cur_sat;
-  int stat1, stat2;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant, line))) {
-    cur_sat.system() = SATELLITE_SYSTEM::mixed;
+    // nothing (e.g. svn or cospar id) should be left from a previous satellite
+    Satellite cur_sat;
     ant_pos = __istream.tellg();
     if (!resolve_satellite_antenna_line(line, cur_sat)) {
       if (cur_sat.prn() == prn && cur_sat.system() == ss) {
-- 
2.43.0


From bf23dc4dcfd6fc8ed450e78dbba48dbce6ee0279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 35/42] fix: antex offsets from their own columns, malformed
 ones reported

---
 src/antex.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index c2daa8f..fd20b63 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -720,10 +720,9 @@ int Antex::get_antenna_pco(const ReceiverAntenna &ant_in,
 int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   char hline[MAX_HEADER_CHARS];
   char gline[MAX_GRID_CHARS];
-  char tmp[11];
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!__get_line__(fin, hline) ||
       std::strncmp(hline + 60, "METH / BY / # / DATE", 20)) {
     return 1;
   }
@@ -763,7 +762,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   ngpt::SATELLITE_SYSTEM ss;
   ngpt::ObservationCode obsc;
   int bn;
-  double dn, de, du;
+  double neu[3]; // north, east, up
   for (int i = 0; i < num_of_freqs; i++) {
     // make sure we are at the START OF FREQUENCY line
     if (!fin || std::strncmp(hline + 60, "START OF FREQUENCY", 18)) {
@@ -789,26 +788,23 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     }
     obsc.band() = bn;
     // next field is 'NORTH / EAST / UP'
-    if (fin.getline(hline, MAX_HEADER_CHARS) &&
+    if (__get_line__(fin, hline) &&
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
-      tmp[10] = '\0';
-      std::memcpy(tmp, hline, 10);
-      dn = std::stod(tmp);
-      std::memcpy(tmp, hline + 10, 10);
-      de = std::stod(tmp);
-      std::memcpy(tmp, hline + 20, 10);
-      du = std::stod(tmp);
+      if (!ngpt::__char2double__<3, 10>(hline, neu)) {
+        errno = 0;
+        return 8;
+      }
     } else {
       return 7;
     }
     // assign to a new pco and add to list
-    pco_list.__vecref__().emplace_back(obsc, ss, dn, de, du);
+    pco_list.__vecref__().emplace_back(obsc, ss, neu[0], neu[1], neu[2]);
     // skip lines until "END OF FREQUENCY"
     do {
-      fin.getline(gline, MAX_GRID_CHARS);
+      __get_line__(fin, gline);
     } while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16));
     // read the following line into hline
-    fin.getline(hline, MAX_HEADER_CHARS);
+    __get_line__(fin, hline);
   }
 
   return 0;
-- 
2.43.0


From fc4bb3d08d6b1e28bce8ec437dae2e43dade1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 36/42] fix: SATELLIT lookups after the end of file, short and
 long lines

---
 src/bern_utils.cpp | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 704763e..10e76ae 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -2,6 +2,7 @@
 #include "ggdatetime/datetime_read.hpp"
 #include <cassert>
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #ifdef DEBUG
 #include "ggdatetime/datetime_write.hpp"
@@ -10,6 +11,23 @@
 
 constexpr int MAX_SATELLIT_CHARS = 256;
 
+/// @brief Read a line to a buffer of size N; all characters of the buffer
+///        following the line are set to '\0' (a line can be shorter than the
+///        columns we want to resolve). Characters that do not fit in the buffer
+///        are skipped.
+/// @return false if there are no more lines to read
+template <int N> static bool __get_line__(std::istream &is, char (&line)[N]) {
+  std::memset(line, 0, N);
+  if (is.getline(line, N))
+    return true;
+  if (is.gcount() == N - 1 && !is.eof()) {
+    is.clear(is.rdstate() & ~std::ios_base::failbit);
+    is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+    return true;
+  }
+  return false;
+}
+
 /// Constructor; after this, the stream will be opened, and the start of
 /// 'PART 2' of the file marked.
 ///
@@ -48,6 +66,7 @@ int ngpt::BernSatellit::get_frequency_channel(
     return 1;
 
   // Go to the top of the relevant field (in file)
+  __istream.clear();
   __istream.seekg(__part2);
 
   // keep reading untill we match svn and epoch
@@ -55,8 +74,11 @@ int ngpt::BernSatellit::get_frequency_channel(
   char *end;
   bool satellite_matched = false;
   ngpt::datetime<ngpt::seconds> start, stop;
-  __istream.getline(line, MAX_SATELLIT_CHARS);
   while (!satellite_matched && line_count < max_lines) {
+    // check for end of records
+    if (!__get_line__(__istream, line) || std::strlen(line) < 10 ||
+        !std::strncmp("PART 3", line, 6))
+      return -1;
     // we are only interested in satellites of type: 'MW' everything else
     // is desregarded and may cause a problem when resolving; e.g. SLR records
     // have no SVN field
@@ -90,11 +112,7 @@ int ngpt::BernSatellit::get_frequency_channel(
         }
       }
     }
-    __istream.getline(line, MAX_SATELLIT_CHARS);
     ++line_count;
-    // check for end of records
-    if (std::strlen(line) < 10 || !std::strncmp("PART 3", line, 6))
-      return -1;
   }
 
   return (line_count >= max_lines) ? (-1) : 5;
@@ -124,7 +142,7 @@ int ngpt::BernSatellit::initialize() noexcept {
 
   // Read the first line and verify
   // ----------------------------------------------------
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  __get_line__(__istream, line);
   if (std::strncmp(line1, line, line1_sz)) {
     std::cerr << "\n[ERROR] Failed to verify first liine of SATELIT file";
     return 10;
@@ -134,23 +152,23 @@ int ngpt::BernSatellit::initialize() noexcept {
   // PART 2: ON-BOARD SENSORS
   int line_count = 0;
   while (std::strncmp(line2, line, line2_sz) && line_count < max_lines) {
-    __istream.getline(line, MAX_SATELLIT_CHARS);
+    __get_line__(__istream, line);
     ++line_count;
   }
   // verify that it is ineed the line we want (and the stream is ok)
   if (!__istream.good() || line_count >= max_lines)
     return 11;
   // next line is just a series of  '-' chars
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  __get_line__(__istream, line);
   // next two lines are column descriptions (for the lines that follow)
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  __get_line__(__istream, line);
   const char *hln1 = "                                              START TIME "
                      "          END TIME                 SENSOR OFFSETS (M)    "
                      "   SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)";
   const int hln1_sz = std::strlen(hln1);
   if (std::strncmp(hln1, line, hln1_sz))
     return 12;
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  __get_line__(__istream, line);
   const char *hln2 =
       "PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM "
       "DD HH MM SS         DX        DY        DZ         X       Y       Z    "
@@ -162,7 +180,9 @@ int ngpt::BernSatellit::initialize() noexcept {
 
   // Cool! we leave the stream here and mark this position; next line to be
   // read is an empty line and then a record line
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  __get_line__(__istream, line);
+  if (!__istream.good())
+    return 14;
   __part2 = __istream.tellg();
 
   // All done !
-- 
2.43.0


From 46211bf3ed8942a810545246315893eb79b80d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 37/42] fix: SATELLIT values from their own columns, malformed
 records reported, not thrown

---
 src/bern_utils.cpp | 47 ++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 10e76ae..081b7e2 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -1,6 +1,8 @@
 #include "bern_utils.hpp"
 #include "ggdatetime/datetime_read.hpp"
 #include <cassert>
+#include <cerrno>
+#include <cstdlib>
 #include <cstring>
 #include <limits>
 #include <stdexcept>
@@ -28,6 +30,18 @@ template <int N> static bool __get_line__(std::istream &is, char (&line)[N]) {
   return false;
 }
 
+/// @brief Resolve an integer written in columns [start, start+M) of a line
+/// @return false if there is no integer there
+template <int M> static bool __get_int__(const char *start, int &i) noexcept {
+  char field[M + 1] = {'\0'}, *end;
+  std::memcpy(field, start, M);
+  errno = 0;
+  i = static_cast<int>(std::strtol(field, &end, 10));
+  const bool ok = !errno && end != field;
+  errno = 0;
+  return ok;
+}
+
 /// Constructor; after this, the stream will be opened, and the start of
 /// 'PART 2' of the file marked.
 ///
@@ -71,7 +85,6 @@ int ngpt::BernSatellit::get_frequency_channel(
 
   // keep reading untill we match svn and epoch
   int line_count = 0, csvn;
-  char *end;
   bool satellite_matched = false;
   ngpt::datetime<ngpt::seconds> start, stop;
   while (!satellite_matched && line_count < max_lines) {
@@ -83,32 +96,26 @@ int ngpt::BernSatellit::get_frequency_channel(
     // is desregarded and may cause a problem when resolving; e.g. SLR records
     // have no SVN field
     if (line[5] == 'M' && line[6] == 'W') {
-      csvn = static_cast<int>(std::strtol(line + 28, &end, 10));
-      if (errno == ERANGE || end == line + 28) {
-        errno = 0;
+      if (!__get_int__<4>(line + 28, csvn))
         return 2;
-      }
       if (csvn == svn) {
-        start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
-        stop = ngpt::datetime<ngpt::seconds>::max();
-        for (int i = 62; i < 82; i++) {
-          if (line[i] != ' ') {
-            stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
-            break;
+        try {
+          start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
+          stop = ngpt::datetime<ngpt::seconds>::max();
+          for (int i = 62; i < 82; i++) {
+            if (line[i] != ' ' && line[i] != '\0') {
+              stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
+              break;
+            }
           }
+        } catch (std::exception &) {
+          return 4;
         }
         if (eph >= start && eph < stop) {
           satellite_matched = true;
-          prn = static_cast<int>(std::strtol(line, &end, 10));
-          ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));
-          if (errno == ERANGE) {
-            errno = 0;
-            // throw std::runtime_error("[ERROR] Failed to resolve svn from
-            // SATELLIT file");
+          if (!__get_int__<3>(line, prn) || !__get_int__<4>(line + 193, ifrqn))
             return 3;
-          } else {
-            return 0;
-          }
+          return 0;
         }
       }
     }
-- 
2.43.0


From efc53cf1e71918ac0c8d930db6ddf34f80c8ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 38/42] fix: GPS accuracy is written in meters in RINEX, it is
 no URA index

---
 src/gpsnav.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/gpsnav.cpp b/src/gpsnav.cpp
index b204f2e..a84edf9 100644
--- a/src/gpsnav.cpp
+++ b/src/gpsnav.cpp
@@ -228,22 +228,15 @@ const noexcept
 */
 
 /// @brief URA SV accuracy (meters)
-/// Compute User Range Accuracy for given SV.
+/// In RINEX v3.x the SV accuracy is already recorded in meters (not as the URA
+/// index of the broadcast message); 8192 meters denote that there is no accuracy
+/// prediction for the SV, in which case the max float is returned.
 float NavDataFrame::gps_ura() const noexcept {
-  float ura_index = data__[23];
-  float ura_meters = std::numeric_limits<float>::max();
-
-  if (ura_index <= 6) {
-    ura_meters = std::pow(2, 1e0 + ura_index / 2e0);
-    ura_meters =
-        static_cast<float>((long)(std::round(ura_meters * 10e0))) / 10e0;
-  } else if (ura_index < 15) {
-    ura_meters = std::pow(2e0, ura_index - 2e0);
-    ura_meters =
-        static_cast<float>((long)(std::round(ura_meters * 10e0))) / 10e0;
-  } else {
-    std::cerr << "\n[WARNING] URA index is " << ura_index
-              << " use satellite at your own risk!";
+  const float ura_meters = data__[23];
+  if (ura_meters >= 8192e0) {
+    std::cerr << "\n[WARNING] URA is " << ura_meters
+              << " m. use satellite at your own risk!";
+    return std::numeric_limits<float>::max();
   }
   return ura_meters;
 }
-- 
2.43.0


From 2eb4e91521b7415a93e404e42c61458591a21d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:09 +0000
Subject: [PATCH 39/42] fix: an observation equal to the missing value marker
 is not missing

---
 src/obsrnx.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 7dbc77a..0fdfd34 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -819,16 +819,18 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
     bool missing = false;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
+      // blank, or the line ends before column of observable; note that the
+      // (written) value itself can be equal to RNXOBS_MISSING_VAL
+      bool blank = true;
       if (len >= idx + 14) {
         // the line can end right after the value (aka no LLI and/or SSI)
         std::memset(tbuf, ' ', 16);
         std::memcpy(tbuf, line + idx, std::min<std::size_t>(16, len - idx));
         if (raw_obs.resolve(tbuf))
           return 2;
-      } else { // line ends before column of observable
-        raw_obs.__val = RNXOBS_MISSING_VAL;
+        blank = string_is_empty(tbuf, 14);
       }
-      if (raw_obs.__val != RNXOBS_MISSING_VAL) {
+      if (!blank) {
         obsval += raw_obs.__val * pr.second;
       } else {
         --status;
-- 
2.43.0


From 20a689bf9addcf8efcc669b5550cedbab815d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 40/42] fix: SATELLIT entries behind the first 1000 lines are
 found

---
 src/bern_utils.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 081b7e2..f4ebd06 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -72,7 +72,6 @@ ngpt::BernSatellit::BernSatellit(const char *fn)
 ///            >0 -> An error occured while reading the records
 int ngpt::BernSatellit::get_frequency_channel(
     int svn, const ngpt::datetime<ngpt::seconds> &eph, int &ifrqn, int &prn) {
-  const int max_lines = 1000;
   char line[MAX_SATELLIT_CHARS];
 
   // The stream should be open by now!
@@ -83,11 +82,10 @@ int ngpt::BernSatellit::get_frequency_channel(
   __istream.clear();
   __istream.seekg(__part2);
 
-  // keep reading untill we match svn and epoch
-  int line_count = 0, csvn;
-  bool satellite_matched = false;
+  // keep reading untill we match svn and epoch, or the records end
+  int csvn;
   ngpt::datetime<ngpt::seconds> start, stop;
-  while (!satellite_matched && line_count < max_lines) {
+  while (true) {
     // check for end of records
     if (!__get_line__(__istream, line) || std::strlen(line) < 10 ||
         !std::strncmp("PART 3", line, 6))
@@ -112,17 +110,13 @@ int ngpt::BernSatellit::get_frequency_channel(
           return 4;
         }
         if (eph >= start && eph < stop) {
-          satellite_matched = true;
           if (!__get_int__<3>(line, prn) || !__get_int__<4>(line + 193, ifrqn))
             return 3;
           return 0;
         }
       }
     }
-    ++line_count;
   }
-
-  return (line_count >= max_lines) ? (-1) : 5;
 }
 
 /// This function should only be called once, inside the object's constructor.
@@ -132,7 +126,6 @@ int ngpt::BernSatellit::get_frequency_channel(
 /// (inside the file) it is placed (aka store it in __part2).
 /// @return  Anything other than 0, denotes an error
 int ngpt::BernSatellit::initialize() noexcept {
-  const int max_lines = 1000;
   const char *line1 =
       "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2";
   const int line1_sz = std::strlen(line1);
@@ -157,13 +150,10 @@ int ngpt::BernSatellit::initialize() noexcept {
 
   // Read rest of lines untill we hit
   // PART 2: ON-BOARD SENSORS
-  int line_count = 0;
-  while (std::strncmp(line2, line, line2_sz) && line_count < max_lines) {
+  while (__istream.good() && std::strncmp(line2, line, line2_sz))
     __get_line__(__istream, line);
-    ++line_count;
-  }
   // verify that it is ineed the line we want (and the stream is ok)
-  if (!__istream.good() || line_count >= max_lines)
+  if (!__istream.good())
     return 11;
   // next line is just a series of  '-' chars
   __get_line__(__istream, line);
-- 
2.43.0


From b327ac50f21366474bf9176bde2921adbfe21688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 41/42] fix: ANTEX antenna blocks can be of any length

---
 src/antex.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index fd20b63..1d6900f 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -269,19 +269,11 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 /// @return Anything other than 0 denotes an error.
 int Antex::skip_rest_of_antenna() noexcept {
   char line[MAX_GRID_CHARS];
-  int max_antenna_lines = 5000;
 
-  int dummy_it = 0;
   do {
     if (!__get_line__(__istream, line))
       return 2;
-    dummy_it++;
-  } while (std::strncmp(line + 60, "END OF ANTENNA", 14) &&
-           dummy_it < max_antenna_lines);
-
-  if (dummy_it >= max_antenna_lines) {
-    return 1;
-  }
+  } while (std::strncmp(line + 60, "END OF ANTENNA", 14));
 
   return 0;
 }
-- 
2.43.0


From 01e089dcfe499989b3630b7a87291c25079d8d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:59 +0000
Subject: [PATCH 42/42] fix: an epoch line with a blank or impossible time is
 refused

---
 src/obsrnx.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 0fdfd34..e3c20ae 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -432,7 +432,8 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   int dints[5];
   for (int i = 0; i < 5; i++) {
     dints[i] = static_cast<int>(std::strtol(start, &end, 10));
-    if (errno || start == end) {
+    // a blank field must not be filled by the one following
+    if (errno || start == end || end != cline + 6 + 3 * i) {
       std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed "
                    "to resolve epoch";
       std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -453,13 +454,20 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
 
   // resolve seconds of day
   double rsec = std::strtod(start, &end);
-  if (errno || start == end) {
+  if (errno || start == end || end > cline + 29) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve seconds";
     std::cerr << "\n        Line was: \"" << cline << "\"";
     errno = 0;
     return 3;
   }
+  if (dints[3] < 0 || dints[3] > 23 || dints[4] < 0 || dints[4] > 59 ||
+      !(rsec >= 0e0 && rsec < 61e0)) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() invalid "
+                 "time of epoch";
+    std::cerr << "\n        Line was: \"" << cline << "\"";
+    return 3;
+  }
   sec = (dints[3] * 60e0 + dints[4]) * 60e0 + rsec;
 
   // resolve clock offset if any
-- 
2.43.0

