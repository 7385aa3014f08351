From 7cd26930fb5277d55ee44692945f7e2e61449fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 01/74] fix: SatelliteAntenna::is_same returned the inverse of
 the comparison

---
 src/antenna.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 8b11f9e..9a877a2 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -189,7 +189,7 @@ SatelliteAntenna::SatelliteAntenna(const char *c) noexcept {
 /// @return       Returns true of the passed in c-string holds the same
 ///               antenna type as this instance; false otherwise
 bool SatelliteAntenna::is_same(const char *c) const noexcept {
-  return std::strncmp(__name, c, satellite_antenna_max_chars);
+  return !std::strncmp(__name, c, satellite_antenna_max_chars);
 }
 
 /// Set the model name to nothing, that is to 20 null terminating chars
-- 
2.43.0


From 0c0919d71aa67e2db54d5b8eb24c197eb289100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 02/74] fix: compare_serial never matched a serial shorter than
 20 chars

---
 src/antenna.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 9a877a2..ccbc680 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -129,7 +129,15 @@ bool ReceiverAntenna::compare_model(const ReceiverAntenna &rhs) const noexcept {
 /// @return		   True if the serials match exactly; false otherwise
 bool ReceiverAntenna::compare_serial(const char *c) const noexcept {
   constexpr auto idx = antenna_model_max_chars + 1 + antenna_radome_max_chars;
-  return !std::strncmp(__name + idx, c, antenna_serial_max_chars);
+  // the stored serial is padded with whitespaces; do the same for the input
+  const char *s = __name + idx;
+  for (std::size_t i = 0; i < antenna_serial_max_chars; i++) {
+    const char c1 = *s ? *s++ : ' ';
+    const char c2 = *c ? *c++ : ' ';
+    if (c1 != c2)
+      return false;
+  }
+  return true;
 }
 
 /// Check if the Antenna instance has a serial number; that is, any of the
-- 
2.43.0


From e8639b0bdab8bdaa7e5e4094ca7e710161e84956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 03/74] fix: set radome to NONE exactly when the radome columns
 are blank

---
 src/antenna.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index ccbc680..7674677 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -36,8 +36,8 @@ void ReceiverAntenna::set_none_radome() noexcept {
 /// Check if the instance's radome type is empty, aka is "	  "
 /// @return true if radome is empty; false otherwise
 bool ReceiverAntenna::radome_is_empty() const noexcept {
-  constexpr std::size_t from = antenna_model_max_chars;
-  constexpr std::size_t to = antenna_model_max_chars + antenna_radome_max_chars;
+  constexpr std::size_t from = antenna_model_max_chars + 1;
+  constexpr std::size_t to = from + antenna_radome_max_chars;
   for (std::size_t i = from; i < to; i++) {
     if (__name[i] != ' ')
       return false;
@@ -65,8 +65,9 @@ void ReceiverAntenna::copy_from_cstr(const char *c) noexcept {
   std::memcpy(__name, c, sizeof(char) * std::min(ant_size, max_sz));
   if (ant_size < max_sz) {
     std::memset(__name + ant_size, ' ', sizeof(char) * (max_sz - ant_size));
-    set_none_radome();
   }
+  if (radome_is_empty())
+    set_none_radome();
 }
 
 /// Constructor from antenna type. At maximum 20 chars are copied from the
-- 
2.43.0


From 0401e20cf7d44fc4d4ffb11dc9955483ed92bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 04/74] fix: a Satellite without COSPAR id printed
 uninitialized memory

---
 src/satellite.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satellite.hpp b/src/satellite.hpp
index dd07986..5c0dd5b 100644
--- a/src/satellite.hpp
+++ b/src/satellite.hpp
@@ -112,8 +112,8 @@ private:
                               ///< GSAT number (Galileo) or SVN number
                               ///< (QZSS); blank (Compass, SBAS)
   SatelliteAntenna __antenna; ///< antenna type
-  char
-      __cospar[detail::COSPAR_ID_CHARS + 1]; ///< The COSPAR id, aka "YYYY-XXXA"
+  char __cospar[detail::COSPAR_ID_CHARS + 1] =
+      "        "; ///< The COSPAR id, aka "YYYY-XXXA" (blank if unknown)
 };                                           // Satellite
 
 } // namespace ngpt
-- 
2.43.0


From 5287b6e30e312cbe70b2dc4cd8369f95565a7a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 05/74] fix: ObservationCode accepted texts whose band is not a
 digit

---
 src/gnssobs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gnssobs.cpp b/src/gnssobs.cpp
index 08e958f..8195159 100644
--- a/src/gnssobs.cpp
+++ b/src/gnssobs.cpp
@@ -88,6 +88,10 @@ ObservationCode::ObservationCode(const char *str) {
   }
   ObservationAttribute at;
   auto ot = char_to_observabletype(*str);
+  if (str[1] < '0' || str[1] > '9') {
+    throw std::runtime_error(
+        "[ERROR] Invalid band; cannot convert string to ObservationCode");
+  }
   int bn = str[1] - '0';
   if (std::strlen(str) > 2 && str[2] != ' ') {
     at = ObservationAttribute(str[2]);
-- 
2.43.0


From a29fa61a1c080e33e646922eae17995dc817dd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 06/74] fix: asking the frequency of an unknown band terminated
 the program

---
 src/gnssobsrv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnssobsrv.hpp b/src/gnssobsrv.hpp
index f6f37b9..6359782 100644
--- a/src/gnssobsrv.hpp
+++ b/src/gnssobsrv.hpp
@@ -125,7 +125,7 @@ public:
     __vec.emplace_back(sys, code, coef);
   }
 
-  double frequency() const noexcept {
+  double frequency() const {
     double frequency = 0e0;
     for (const auto &v : __vec)
       frequency += v.frequency();
-- 
2.43.0


From 3bf977ef4a988e6c3692580b13d3c09ebd2d5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 07/74] fix: GnssObservable equality ignored how often a part
 occurs

---
 src/gnssobsrv.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/gnssobsrv.cpp b/src/gnssobsrv.cpp
index 2dc58b3..2fc53ad 100644
--- a/src/gnssobsrv.cpp
+++ b/src/gnssobsrv.cpp
@@ -65,11 +65,5 @@ bool ngpt::GnssObservable::operator==(const ngpt::GnssObservable &o) const
     noexcept {
   if (o.__vec.size() != __vec.size())
     return false;
-  for (const auto &i : __vec)
-    if (auto it = std::find_if(
-            o.__vec.begin(), o.__vec.end(),
-            [&ic = std::as_const(i)](const __ObsPart &p) { return p == ic; });
-        it == o.__vec.end())
-      return false;
-  return true;
+  return std::is_permutation(__vec.begin(), __vec.end(), o.__vec.begin());
 }
-- 
2.43.0


From 59deeb08487f5c6f74a44f255b573a6efaee5c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 08/74] fix: BeiDou bands were not keyed by the RINEX 3.04 band
 numbers

---
 src/satsys.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/satsys.cpp b/src/satsys.cpp
index 6760569..af0f6af 100644
--- a/src/satsys.cpp
+++ b/src/satsys.cpp
@@ -65,13 +65,22 @@ const std::map<int, std::string> ngpt::satellite_system_traits<
 /// Initialize the static frequency map for BDS.
 const std::map<int, double> ngpt::satellite_system_traits<
     ngpt::SATELLITE_SYSTEM::beidou>::frequency_map = {
-    {1, 1561.098e0}, {2, 1207.140e0}, {3, 1268.520e0}};
+    {1, 1575.420e0}, ///< B1
+    {2, 1561.098e0}, ///< B1-2
+    {5, 1176.450e0}, ///< B2a
+    {6, 1268.520e0}, ///< B3
+    {7, 1207.140e0}, ///< B2b
+    {8, 1191.795e0}  ///< B2(B2a+B2b)
+};
 
 const std::map<int, std::string> ngpt::satellite_system_traits<
     ngpt::SATELLITE_SYSTEM::beidou>::valid_atributes = {
-    {1, std::string("IQX?")},
+    {1, std::string("DPX?")},
     {2, std::string("IQX?")},
-    {3, std::string("IQX?")}};
+    {5, std::string("DPX?")},
+    {6, std::string("IQXA?")},
+    {7, std::string("IQXDPZ?")},
+    {8, std::string("DPX?")}};
 
 /// Initialize the static frequency map for IRNSS.
 /// \todo in \cite rnx303 the 2nd frequency band is denoted as 'S'
-- 
2.43.0


From 392bd595a6957d587956a0baa291e765d2fbaa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 09/74] fix: a blank number field was filled with the number of
 the next field

---
 src/nvarstr.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index 7c4ee64..37d7c2b 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -84,12 +84,17 @@ std::string ltrim(const char *str, std::size_t &start,
 ///          sure to clear it (aka 'errno') after exit.
 template <int N, int M>
 inline bool __char2double__(const char *line, double *data) noexcept {
-  char *end;
+  char field[M + 1], *end;
   for (int i = 0; i < N; i++) {
-    data[i] = std::strtod(line, &end);
-    if (line == end)
+    // only look at this number's M columns (or less if the line ends)
+    int len = 0;
+    for (; len < M && line[len]; len++)
+      field[len] = line[len];
+    field[len] = '\0';
+    data[i] = std::strtod(field, &end);
+    if (field == end)
       return false;
-    line += M;
+    line += len;
   }
   return errno ? false : true;
 }
@@ -107,12 +112,17 @@ inline bool __char2double__(const char *line, double *data) noexcept {
 /// doubles we are resolving at compile time.
 template <int M>
 inline bool __char2double__(const char *line, double *data, int N) noexcept {
-  char *end;
+  char field[M + 1], *end;
   for (int i = 0; i < N; i++) {
-    data[i] = std::strtod(line, &end);
-    if (line == end)
+    // only look at this number's M columns (or less if the line ends)
+    int len = 0;
+    for (; len < M && line[len]; len++)
+      field[len] = line[len];
+    field[len] = '\0';
+    data[i] = std::strtod(field, &end);
+    if (field == end)
       return false;
-    line += M;
+    line += len;
   }
   return errno ? false : true;
 }
-- 
2.43.0


From a1f973e30c2dc681d576844e393f9423fd760dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 10/74] fix: an antenna missing from the ANTEX file was
 reported as matched

---
 src/antex.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 74b2de7..6d7a5d9 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -286,7 +286,8 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
 
   ReceiverAntenna cur_ant, best_match_ant;
   pos_type best_match_pos;
-  int stat1, stat2;
+  bool model_matched = false;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant))) {
     if (cur_ant.is_same(ant_in)) {
@@ -297,12 +298,13 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
     if (cur_ant.compare_model(ant_in) && !cur_ant.has_serial()) {
       best_match_ant = cur_ant;
       best_match_pos = __istream.tellg();
+      model_matched = true;
     }
     if ((stat2 = skip_rest_of_antenna()))
       break;
   }
   // some error status is set
-  if (stat1 > 0 || stat2) {
+  if (stat1 > 0 || stat2 || !model_matched) {
     return 1;
   }
   ant_out = best_match_ant;
-- 
2.43.0


From f96efa9784ee7d4dd10bec3a19d9d059b941784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 11/74] fix: satellites from ANTEX carried SVN and COSPAR id of
 an earlier block

---
 src/antex.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 6d7a5d9..1917dc7 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -491,17 +491,17 @@ int check_time_interval(std::ifstream &fin,
 int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
                                   const ngpt::datetime<ngpt::seconds> &at,
                                   pos_type &ant_pos, Satellite *sv) noexcept {
-  char line[MAX_HEADER_CHARS];
+  char line[MAX_HEADER_CHARS] = {'\0'};
 
   // go to the top of the file, after the header
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant;
-  Satellite cur_sat;
-  int stat1, stat2;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant, line))) {
-    cur_sat.system() = SATELLITE_SYSTEM::mixed;
+    // start clean, nothing of a previous block should survive
+    Satellite cur_sat;
     ant_pos = __istream.tellg();
     if (!resolve_satellite_antenna_line(line, cur_sat)) {
       if (cur_sat.prn() == prn && cur_sat.system() == ss) {
-- 
2.43.0


From f82f29cd74b423b446744a9c5ed01ae4afd1ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 12/74] fix: an ANTEX search that failed made all later
 searches fail

---
 src/antex.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 1917dc7..e34afea 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -281,7 +281,9 @@ int Antex::skip_rest_of_antenna() noexcept {
 int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
                                       ReceiverAntenna &ant_out,
                                       pos_type &ant_pos) noexcept {
-  // go to the top of the file, after the header
+  // go to the top of the file, after the header (a previous search may have
+  // left the stream in an error state)
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant, best_match_ant;
@@ -493,7 +495,9 @@ int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
                                   pos_type &ant_pos, Satellite *sv) noexcept {
   char line[MAX_HEADER_CHARS] = {'\0'};
 
-  // go to the top of the file, after the header
+  // go to the top of the file, after the header (a previous search may have
+  // left the stream in an error state)
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant;
-- 
2.43.0


From 47cd50512b38fa34babe6c913173cc0be12cacb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 13/74] fix: a truncated ANTEX satellite block was searched
 forever

---
 src/antex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index e34afea..956394e 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -445,7 +445,7 @@ int check_time_interval(std::ifstream &fin,
     if (from_ok && to_ok)
       break;
   } while (std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
-           dummy_it < max_lines);
+           ++dummy_it < max_lines);
   // do not use the following check
   // } while (std::strncmp(line+60, "END OF ANTENNA", 14) && dummy_it <
   // max_lines); cause this may leave the stream just after the line "END OF
@@ -453,7 +453,7 @@ int check_time_interval(std::ifstream &fin,
   // will cause a whole antenna record block to be skipped. This was indeed a
   // bug (for the function find_satellite_antenna()
 
-  if (++dummy_it >= max_lines) {
+  if (dummy_it >= max_lines) {
     return 20;
   }
 
-- 
2.43.0


From 502a2c3d53fd3f2d0f0e8012c502ab712e3b3ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 14/74] fix: an unreadable ANTEX phase centre offset terminated
 the program

---
 src/antex.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 956394e..d5b7bf3 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -768,11 +768,15 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
       tmp[10] = '\0';
       std::memcpy(tmp, hline, 10);
-      dn = std::stod(tmp);
-      std::memcpy(tmp, hline + 10, 10);
-      de = std::stod(tmp);
-      std::memcpy(tmp, hline + 20, 10);
-      du = std::stod(tmp);
+      try {
+        dn = std::stod(tmp);
+        std::memcpy(tmp, hline + 10, 10);
+        de = std::stod(tmp);
+        std::memcpy(tmp, hline + 20, 10);
+        du = std::stod(tmp);
+      } catch (std::exception &) {
+        return 7;
+      }
     } else {
       return 7;
     }
-- 
2.43.0


From 04c6c61466d3dffb3c215e218f2e57cdae1c7f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 15/74] fix: short ANTEX grid lines were taken for the end of
 the frequency

---
 src/antex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/antex.cpp b/src/antex.cpp
index d5b7bf3..4f74c88 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -745,6 +745,8 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
       // wait!! this might be a frequency rms from the previous frequency
       if (!std::strncmp(hline + 60, "START OF FREQ RMS", 17)) {
         do {
+          // grid lines can be short; do not see the label of an earlier line
+          gline[60] = '\0';
           fin.getline(gline, MAX_GRID_CHARS);
         } while (fin && std::strncmp(gline + 60, "END OF FREQ RMS", 15));
         if (!fin.getline(hline, MAX_HEADER_CHARS) ||
@@ -784,6 +786,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     pco_list.__vecref__().emplace_back(obsc, ss, dn, de, du);
     // skip lines until "END OF FREQUENCY"
     do {
+      gline[60] = '\0'; // grid lines can be short
       fin.getline(gline, MAX_GRID_CHARS);
     } while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16));
     // read the following line into hline
-- 
2.43.0


From 587c286b6876f66347e5c30753761218a126accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 16/74] fix: a navigation file could not be rewound after a
 failed read

---
 src/navrnx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index f8b6c8b..dd89a7d 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -336,6 +336,8 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
 /// @details Set the nav RINEX stream to end of header, ready to restart
 ///          reading nav data blocks
 void NavigationRnx::rewind(pos_type pos) noexcept {
+  // seekg does nothing on a stream that has failed
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
-- 
2.43.0


From e3a9edc55ce82f0b9c2917d481d090dc36b28332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 17/74] fix: end of a navigation file without final newline was
 reported as an error

---
 src/navrnx.cpp | 10 +++++-----
 src/navrnx.hpp |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index dd89a7d..99f7025 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -78,7 +78,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char *str_end;
 
 #ifdef DEBUG
-  if (!inp.good())
+  if (inp.fail())
     return 50;
 #endif
 
@@ -255,7 +255,7 @@ int NavigationRnx::read_header() noexcept {
 ///           > 0 Error; block not resolved
 int NavigationRnx::read_next_record(NavDataFrame &nav) noexcept {
 #ifdef DEBUG
-  if (!__istream.good())
+  if (__istream.fail())
     return 50;
 #endif
   int c;
@@ -278,7 +278,7 @@ int NavigationRnx::read_next_record(NavDataFrame &nav) noexcept {
 ///           > 0 Error; satellite system not resolved
 int NavigationRnx::ignore_next_block() noexcept {
 #ifdef DEBUG
-  if (!__istream.good())
+  if (__istream.fail())
     return 50;
 #endif
   char s = __istream.peek();
@@ -313,7 +313,7 @@ int NavigationRnx::ignore_next_block() noexcept {
 ///           > 0 Error; satellite system not resolved
 ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
 #ifdef DEBUG
-  if (!__istream.good()) {
+  if (__istream.fail()) {
     status = 10;
     return SATELLITE_SYSTEM::mixed;
   }
@@ -361,7 +361,7 @@ void NavigationRnx::rewind(pos_type pos) noexcept {
 int NavigationRnx::find_next(pos_type &curpos, NavDataFrame &frame,
                              SATELLITE_SYSTEM sys, int prn) noexcept {
 #ifdef DEBUG
-  if (!__istream.good())
+  if (__istream.fail())
     return 50;
 #endif
   curpos = __istream.tellg();
diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 2a748e5..770ddaa 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -641,7 +641,7 @@ public:
     // std::cout<<"\n$$$[DEBUG] Updating msg for
     // t="<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(t);
 #ifdef DEBUG
-    if (!__istream.good())
+    if (__istream.fail())
       return 50;
 #endif
     curpos = __istream.tellg();
-- 
2.43.0


From 602fcb0f4b0a22204e73cfab1f54009a52e458c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 18/74] fix: an unreadable navigation record terminated the
 program

---
 src/navrnx.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 99f7025..7a0e60d 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -71,8 +71,6 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
 /// @param[in] inp Input file (nav RINEX v3) stream, placed before (aka first
 ///                line to be read is:) "SV/ EPOCH / SV CLK"
 /// @return    Anything other than 0 denotes an error.
-/// @todo the line toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line+3); may
-/// throw! what can i do about this?
 int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
   char *str_end;
@@ -87,8 +85,13 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   if (!inp.getline(line, MAX_RECORD_CHARS)) {
     return 1;
   }
-  sys__ = ngpt::char_to_satsys(*line);
-  toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  // both of these may throw (but we must not)
+  try {
+    sys__ = ngpt::char_to_satsys(*line);
+    toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  } catch (std::exception &) {
+    return 2;
+  }
   prn__ = std::strtol(line + 1, &str_end, 10);
   if (!prn__ || errno == ERANGE) {
     errno = 0;
-- 
2.43.0


From 0e5d1fea51f9e5a70848c7afea3f233ff6dbc7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 19/74] fix: searching a navigation file never ended at a block
 of no known system

---
 src/navrnx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 7a0e60d..2556d02 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -298,6 +298,9 @@ int NavigationRnx::ignore_next_block() noexcept {
   char line[MAX_RECORD_CHARS];
   int last_line_recs = 0;
   int lines_in_block = __lines_per_satsys_v3__(sys, last_line_recs);
+  // no such block; do not pretend to have skipped it
+  if (lines_in_block < 0)
+    return 1;
   // read and skip lines
   for (int ln = 0; ln < lines_in_block; ln++) {
     if (!__istream.getline(line, MAX_RECORD_CHARS)) {
-- 
2.43.0


From 7ad5470c2ad71793ed31c57cdd3f410ce92e8793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 20/74] fix: navigation records kept numbers of the record read
 before

---
 src/navrnx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 2556d02..74edf24 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -1,6 +1,7 @@
 #include "navrnx.hpp"
 #include "ggdatetime/datetime_read.hpp"
 #include "nvarstr.hpp"
+#include <algorithm>
 #include <cerrno>
 #include <cstdlib>
 #include <cstring>
@@ -80,6 +81,10 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
     return 50;
 #endif
 
+  // nothing of an earlier record should survive
+  std::fill(data__, data__ + 31, 0e0);
+  toe__ = ngpt::datetime<ngpt::seconds>{};
+
   // Read the first line.
   // ------------------------------------------------------------
   if (!inp.getline(line, MAX_RECORD_CHARS)) {
-- 
2.43.0


From a95d24ae0add8c76fb9142c2f672c047029797fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 21/74] fix: navigation records were refused when errno was set
 beforehand

---
 src/navrnx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 74edf24..0f69b5a 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -76,6 +76,9 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
   char *str_end;
 
+  // conversions are checked via errno; forget about errors of others
+  errno = 0;
+
 #ifdef DEBUG
   if (inp.fail())
     return 50;
-- 
2.43.0


From 1a6986a4d2f9cc6250db45a72d2223222de4e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 22/74] fix: GLONASS ToE was a week off when ToC is in the next
 or previous week

---
 src/navrnx.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 770ddaa..ef71372 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -527,6 +527,11 @@ private:
 #endif
     // days difference (if any)
     int offset = dw_toc - dw_toe;
+    // ToE and ToC may be on different sides of the end of the week
+    if (offset > 3)
+      offset -= 7;
+    else if (offset < -3)
+      offset += 7;
     // seconds of day (for ToE)
     long sd_toe = sw_toe % 86400L;
 #ifdef DEBUG
-- 
2.43.0


From 81862049b470ea171badfaab03f5dbc308280771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 23/74] fix: asking a valid message of an unsupported system
 terminated the program

---
 src/navrnx.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index ef71372..c25c4e1 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -645,6 +645,10 @@ public:
                       int prn) noexcept {
     // std::cout<<"\n$$$[DEBUG] Updating msg for
     // t="<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(t);
+    // we can only tell validity for these systems
+    if (sys != SATELLITE_SYSTEM::gps && sys != SATELLITE_SYSTEM::glonass &&
+        sys != SATELLITE_SYSTEM::galileo && sys != SATELLITE_SYSTEM::beidou)
+      return 51;
 #ifdef DEBUG
     if (__istream.fail())
       return 50;
-- 
2.43.0


From 80fa7659f1faa82c3f4ead096af56f819a797567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 24/74] fix: find_next_valid ignored the documented wildcard
 PRN

---
 src/navrnx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index c25c4e1..3d7e5ce 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -663,7 +663,7 @@ public:
       if (csys == sys) {
         if ((status = this->read_next_record(frame)))
           return clear_stream(status);
-        if (prn == frame.prn()) {
+        if (prn == -1 || prn == frame.prn()) {
           auto toc = frame.toc<milliseconds>();
           // std::cout<<" found msg with ToC
           // "<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(toc); are we too far
-- 
2.43.0


From 621982fe42533a00052d03310388cfb5ca34a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 25/74] fix: an impossible ToE in a navigation record aborted
 the program

---
 src/navrnx.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 0f69b5a..998aaf4 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -3,6 +3,7 @@
 #include "nvarstr.hpp"
 #include <algorithm>
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -173,17 +174,15 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
       data__[i] *= 1e3;
   }
 
-  // set ToE
-#ifdef DEBUG
-  // assert we don't have fractional seconds!
-  if (sys__ == SATELLITE_SYSTEM::glonass)
-    assert(std::abs(data__[2] - (int)data__[2]) < 1e-15);
-  if (sys__ == SATELLITE_SYSTEM::gps || sys__ == SATELLITE_SYSTEM::galileo ||
-      sys__ == SATELLITE_SYSTEM::beidou)
-    assert(std::abs(data__[11] - (int)data__[11]) < 1e-15);
-#endif
+  // set ToE; it should be whole seconds of a week (and the week a week number)
+  const double toe_sow =
+      sys__ == SATELLITE_SYSTEM::glonass ? data__[2] : data__[11];
   if (sys__ == SATELLITE_SYSTEM::gps || sys__ == SATELLITE_SYSTEM::glonass ||
       sys__ == SATELLITE_SYSTEM::galileo || sys__ == SATELLITE_SYSTEM::beidou) {
+    if (!(toe_sow >= 0e0 && toe_sow < 1e7 && toe_sow == std::floor(toe_sow)))
+      return 9;
+    if (sys__ != SATELLITE_SYSTEM::glonass && !(std::abs(data__[21]) < 1e5))
+      return 9;
     toe__ = this->toe2date<ngpt::seconds>();
   }
 
-- 
2.43.0


From 2db665240dcc20a6d781ec27f04c4a82cb05ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 26/74] fix: a short line of a navigation record was filled up
 with the line before

---
 src/navrnx.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 998aaf4..3f4a484 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -77,6 +77,12 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
   char *str_end;
 
+  // get the next line; nothing of an earlier one is left behind a short line
+  auto next_line = [&]() -> bool {
+    std::memset(line, '\0', MAX_RECORD_CHARS);
+    return !inp.getline(line, MAX_RECORD_CHARS).fail();
+  };
+
   // conversions are checked via errno; forget about errors of others
   errno = 0;
 
@@ -91,7 +97,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
 
   // Read the first line.
   // ------------------------------------------------------------
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!next_line()) {
     return 1;
   }
   // both of these may throw (but we must not)
@@ -122,7 +128,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   // read all but the last line (** all but galileo or beidou **)
   if (sys__ != SATELLITE_SYSTEM::galileo && sys__ != SATELLITE_SYSTEM::beidou) {
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!next_line()) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -135,7 +141,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
     }
   } else { // galileo and beidou have an empty record in line #5
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!next_line()) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -156,7 +162,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
 
   // read last line
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!next_line()) {
     return 7;
   }
   // replace 'D' or 'd' with 'e'
-- 
2.43.0


From 36df9348e0c2634da5a2ea3d354d18caa8643f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 27/74] fix: gps_ura took the accuracy in meters for a URA
 index

---
 src/gpsnav.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/gpsnav.cpp b/src/gpsnav.cpp
index b204f2e..47a76c0 100644
--- a/src/gpsnav.cpp
+++ b/src/gpsnav.cpp
@@ -230,21 +230,11 @@ const noexcept
 /// @brief URA SV accuracy (meters)
 /// Compute User Range Accuracy for given SV.
 float NavDataFrame::gps_ura() const noexcept {
-  float ura_index = data__[23];
-  float ura_meters = std::numeric_limits<float>::max();
-
-  if (ura_index <= 6) {
-    ura_meters = std::pow(2, 1e0 + ura_index / 2e0);
-    ura_meters =
-        static_cast<float>((long)(std::round(ura_meters * 10e0))) / 10e0;
-  } else if (ura_index < 15) {
-    ura_meters = std::pow(2e0, ura_index - 2e0);
-    ura_meters =
-        static_cast<float>((long)(std::round(ura_meters * 10e0))) / 10e0;
-  } else {
-    std::cerr << "\n[WARNING] URA index is " << ura_index
+  // RINEX 3.x already gives meters here, not the URA index
+  const float ura_meters = data__[23];
+  if (ura_meters >= 8192e0)
+    std::cerr << "\n[WARNING] SV accuracy is " << ura_meters
               << " use satellite at your own risk!";
-  }
   return ura_meters;
 }
 
-- 
2.43.0


From 951140bc3f5fa5ab5179d87bc51094cede95ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 28/74] fix: a navigation file ending with its header, without
 newline, was never at its end

---
 src/navrnx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 3f4a484..eeaefd0 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -256,7 +256,8 @@ int NavigationRnx::read_header() noexcept {
     return 20;
   }
 
-  // Mark the end of header
+  // Mark the end of header (the last line of the file may well be the header's)
+  __istream.clear();
   __end_of_head = __istream.tellg();
 
   // All done !
-- 
2.43.0


From 87025d41ed94947ae27553c415590c74e145df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 29/74] fix: searching at the end of a navigation file without
 final newline was an error

---
 src/navrnx.cpp | 3 +++
 src/navrnx.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index eeaefd0..44a3a37 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -384,6 +384,9 @@ int NavigationRnx::find_next(pos_type &curpos, NavDataFrame &frame,
   if (__istream.fail())
     return 50;
 #endif
+  // tellg fails if the last line read was not terminated
+  if (__istream.eof())
+    __istream.clear();
   curpos = __istream.tellg();
   int status = 0, dummy_it = 0;
   SATELLITE_SYSTEM csys;
diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 3d7e5ce..31ff3fe 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -653,6 +653,9 @@ public:
     if (__istream.fail())
       return 50;
 #endif
+    // tellg fails if the last line read was not terminated
+    if (__istream.eof())
+      __istream.clear();
     curpos = __istream.tellg();
     int status = 0, dummy_it = 0;
     SATELLITE_SYSTEM csys;
-- 
2.43.0


From 6ab7ebf43faa77f1c25926c53ff9e188434fd500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 30/74] fix: moved-from observation files released their line
 buffer twice

---
 src/obsrnx.cpp | 24 ++++++++++--------------
 src/obsrnx.hpp |  3 ++-
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ef2740a..098ae40 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -90,17 +90,13 @@ ObservationRnx::ObservationRnx(const char *filename)
   }
   std::size_t maxobs = this->max_obs();
   __buf_sz = maxobs * 16 + 4;
-  __buf = new char[__buf_sz];
+  __buf.reset(new char[__buf_sz]);
 }
 
-/// Destructor; close the stream and delete the allocated buffer
+/// Destructor; close the stream (the buffer is released by its owner)
 ObservationRnx::~ObservationRnx() noexcept {
   if (__istream.is_open())
     __istream.close();
-  if (__buf) {
-    __buf_sz = 0;
-    delete[] __buf;
-  }
 }
 
 /// Loop through the observables of every satellite system, and return the
@@ -761,20 +757,20 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
 #endif
 
   std::memset(tbuf, '\0', 17);
-  std::memcpy(tbuf, __buf + 1, 2);
+  std::memcpy(tbuf, __buf.get() + 1, 2);
   prn = std::strtol(tbuf, &end, 10);
   if ((errno || tbuf == end) || (prn < 1 || prn > 99))
     return 1;
 
   RawRnxObs__ raw_obs;
   int k = 0;
-  std::size_t len = std::strlen(__buf);
+  std::size_t len = std::strlen(__buf.get());
   for (const auto &obsrv : sysobs) { // For every observable in vector
     double obsval = 0e0;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
       if (len >= idx + 16) { // line ends before column of observable
-        std::memcpy(tbuf, __buf + idx, 16);
+        std::memcpy(tbuf, __buf.get() + idx, 16);
         if (raw_obs.resolve(tbuf))
           return 2;
         if (raw_obs.__val != RNXOBS_MISSING_VAL) {
@@ -858,13 +854,13 @@ int ObservationRnx::collect_epoch(
   // loop through every satellite in epoch
   while (sat_it < numsats) {
     // resolve satellite system
-    __istream.getline(__buf, __buf_sz);
+    __istream.getline(__buf.get(), __buf_sz);
     try {
-      s = char_to_satsys(*__buf);
+      s = char_to_satsys(__buf[0]);
     } catch (std::exception &e) {
       std::cerr << "\n[ERROR] ObservationRnx::collect_epoch() Failed to "
                    "resolve Satellite System";
-      std::cerr << "\n        Line was: \"" << __buf << "\"";
+      std::cerr << "\n        Line was: \"" << __buf.get() << "\"";
       return 1;
     }
 
@@ -937,11 +933,11 @@ int ObservationRnx::read_next_epoch(
   sats = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
-    __istream.getline(__buf, __buf_sz);
+    __istream.getline(__buf.get(), __buf_sz);
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
-    if ((j = __resolve_epoch_304__(__buf, mjd, secofday, flag, num_sats,
+    if ((j = __resolve_epoch_304__(__buf.get(), mjd, secofday, flag, num_sats,
                                    rcvr_coff)))
       return 20 + j;
     // resolve observation block
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 996437b..33ca637 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -8,6 +8,7 @@
 #include "satsys.hpp"
 #include <fstream>
 #include <map>
+#include <memory>
 #include <vector>
 #ifdef DEBUG
 #include "ggdatetime/datetime_write.hpp"
@@ -168,7 +169,7 @@ private:
   std::map<SATELLITE_SYSTEM, std::vector<ObservationCode>> __obstmap;
   ///< A char buffer which can hold an observation line
   ///< with maximum number of observables
-  char *__buf{nullptr};
+  std::unique_ptr<char[]> __buf;
   ///< Length of __buf, aka length of maximum observation
   ///< line in file (this->max_obs()*16+4)
   std::size_t __buf_sz{0};
-- 
2.43.0


From 2353f88c2c718e2ea76332b55559b5554a4b5900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 31/74] fix: epoch lines did not fit the line buffer of files
 with few observables

---
 src/obsrnx.cpp | 6 +++++-
 src/obsrnx.hpp | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 098ae40..5f30aeb 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -18,6 +18,10 @@ constexpr int MAX_HEADER_CHARS{85};
 /// Max header lines.
 constexpr int MAX_HEADER_LINES{1000};
 
+/// An epoch line needs this many chars, whatever the number of observables;
+/// lines may also have some trailing blanks
+constexpr std::size_t MIN_LINE_CHARS{128};
+
 /// Max satellites in eopch
 constexpr int MAX_SAT_IN_EPOCH{80};
 
@@ -89,7 +93,7 @@ ObservationRnx::ObservationRnx(const char *filename)
         std::to_string(j));
   }
   std::size_t maxobs = this->max_obs();
-  __buf_sz = maxobs * 16 + 4;
+  __buf_sz = maxobs * 16 + MIN_LINE_CHARS;
   __buf.reset(new char[__buf_sz]);
 }
 
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 33ca637..df745d6 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -171,7 +171,7 @@ private:
   ///< with maximum number of observables
   std::unique_ptr<char[]> __buf;
   ///< Length of __buf, aka length of maximum observation
-  ///< line in file (this->max_obs()*16+4)
+  ///< line in file
   std::size_t __buf_sz{0};
 
 }; // ObservationRnx
-- 
2.43.0


From f4db112a957d65d4214b01d2a090376514bc9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 32/74] fix: the second header line of observation files was
 ignored

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 5f30aeb..e56d2cc 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -193,7 +193,6 @@ int ObservationRnx::read_header() noexcept {
   __istream.getline(line, MAX_HEADER_CHARS);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
       __marker_name = ngpt::rtrim(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
@@ -253,6 +252,7 @@ int ObservationRnx::read_header() noexcept {
         return 61;
       }
     }
+    __istream.getline(line, MAX_HEADER_CHARS);
     dummy_it++;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
-- 
2.43.0


From 68f47be3f271ebe2a7b23ec43e6bb174e2be60a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 33/74] fix: marker, receiver and antenna names were cut at
 their first blank

---
 src/obsrnx.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index e56d2cc..4eba6c2 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -35,6 +35,14 @@ const std::size_t eoh_size{std::strlen("END OF HEADER")};
 constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 #endif
 
+/// Header field of given width without its trailing blanks (it may well have
+/// other blanks)
+static std::string trim_field(const char *field, std::size_t width) {
+  std::size_t end;
+  return ngpt::rtrim<ngpt::str_algorithm_details::StrSearchPolicyEnd>(
+      field, end, width);
+}
+
 /// Resolve a RINEX observation using the relative string; this string, of type:
 /// (F14.3 I1 I1) is resolved as:
 /// F14.3 -> the actual value of the observation (if empty use the
@@ -194,17 +202,17 @@ int ObservationRnx::read_header() noexcept {
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
-      __marker_name = ngpt::rtrim(line, szt, 60);
+      __marker_name = trim_field(line, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
                              std::strlen("MARKER NUMBER"))) {
-      __marker_number = ngpt::rtrim(line, szt, 20);
+      __marker_number = trim_field(line, 20);
     } else if (!std::strncmp(line + 60, "REC # / TYPE / VERS",
                              std::strlen("REC # / TYPE / VERS"))) {
-      __receiver_number = ngpt::rtrim(line, szt, 20);
-      __receiver_type = ngpt::rtrim(line + 20, szt, 20);
+      __receiver_number = trim_field(line, 20);
+      __receiver_type = trim_field(line + 20, 20);
     } else if (!std::strncmp(line + 60, "ANT # / TYPE",
                              std::strlen("ANT # / TYPE"))) {
-      ReceiverAntenna ant(ngpt::rtrim(line + 20, szt, 20));
+      ReceiverAntenna ant(trim_field(line + 20, 20));
       if (!ngpt::string_is_empty(line, 20))
         ant.set_serial_nr(line);
       __antenna = ant;
-- 
2.43.0


From ebd232efd48f8a442e17788fcdf4982d2a239376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 34/74] fix: 13, 26, ... observation types of a system took the
 next header line for theirs

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 4eba6c2..ce1db2b 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -327,7 +327,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     }
     ++resolved;
     ++vecsz;
-    if (resolved == 13) {
+    if (resolved == 13 && vecsz < obsnum) {
       __istream.getline(line, MAX_HEADER_CHARS);
       if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
-- 
2.43.0


From 0f14412f84035d25c2762c82ed34db9e40ff0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 35/74] fix: an unknown satellite system or date in an
 observation header terminated the program

---
 src/obsrnx.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ce1db2b..8674459 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -255,7 +255,7 @@ int ObservationRnx::read_header() noexcept {
                              std::strlen("TIME OF FIRST OBS"))) {
       try {
         __epoch_start = ngpt::strptime_ymd_hms<ngpt::microseconds>(line);
-      } catch (std::invalid_argument &e) {
+      } catch (std::exception &e) {
         std::cerr << "\n[ERROR] " << e.what();
         return 61;
       }
@@ -297,7 +297,12 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
 
   char *end;
   std::vector<ngpt::ObservationCode> obsvec;
-  auto satsys = ngpt::char_to_satsys(line[0]);
+  ngpt::SATELLITE_SYSTEM satsys;
+  try {
+    satsys = ngpt::char_to_satsys(line[0]);
+  } catch (std::exception &) {
+    return 5;
+  }
   if (__obstmap.find(satsys) != __obstmap.end()) {
     std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
                  "field: \"SYS / # / OBS TYPES\"";
-- 
2.43.0


From 365894a9bed1a8e01986af674cbdb0cd990b94b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 36/74] fix: loss-of-lock and signal strength digits were taken
 for decimals of the value

---
 src/obsrnx.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 8674459..269f81a 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -70,8 +70,12 @@ int RawRnxObs__::resolve(char *str) noexcept {
     __val = RNXOBS_MISSING_VAL;
     return 0;
   }
-  __val = std::strtod(str, &end);
-  if (errno || str == end) {
+  // F14.3; what follows the value are the indicators
+  char val[15];
+  std::memcpy(val, str, 14);
+  val[14] = '\0';
+  __val = std::strtod(val, &end);
+  if (errno || val == end) {
     errno = 0;
     return 1;
   }
-- 
2.43.0


From 3eda7839d95ec142ded604298d06280680faf95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 37/74] fix: the last value of a line without trailing
 indicators was dropped

---
 src/obsrnx.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 269f81a..36d0ed1 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -790,8 +790,9 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
     double obsval = 0e0;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
-      if (len >= idx + 16) { // line ends before column of observable
-        std::memcpy(tbuf, __buf.get() + idx, 16);
+      if (len >= idx + 14) { // line may end before the indicators
+        std::memset(tbuf, ' ', 16);
+        std::memcpy(tbuf, __buf.get() + idx, std::min<std::size_t>(16, len - idx));
         if (raw_obs.resolve(tbuf))
           return 2;
         if (raw_obs.__val != RNXOBS_MISSING_VAL) {
-- 
2.43.0


From b5f24969a17ea7ccd68b67419fb50123c21f02a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 38/74] fix: linear combinations with a missing part were
 formed from the others

---
 src/obsrnx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 36d0ed1..d6f44a4 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -800,9 +800,11 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
         } else {
           --status;
           obsval = RNXOBS_MISSING_VAL;
+          break;
         }
       } else {
         raw_obs.__val = obsval = RNXOBS_MISSING_VAL;
+        break;
       }
     }
     vals[k] = obsval;
-- 
2.43.0


From 59544184db2a0f102fb6e4072249a97e0934086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 39/74] fix: the last epoch of an observation file without
 final newline was reported as end of file

---
 src/obsrnx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index d6f44a4..4b0c5b6 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -967,6 +967,7 @@ int ObservationRnx::read_next_epoch(
     // resolve observation block
     if ((j = collect_epoch(num_sats, sats, mmap, satobs)))
       return 30 + j;
+    return 0;
   }
   if (__istream.eof()) {
     __istream.clear();
-- 
2.43.0


From 2e1717ed6dacbb8eaacb551bd2618883acc956e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 40/74] fix: reading on after a failed read of an observation
 file reported success forever

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 4b0c5b6..84aae13 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -973,7 +973,7 @@ int ObservationRnx::read_next_epoch(
     __istream.clear();
     return -1;
   }
-  return 0;
+  return 50;
 }
 
 /// This function will return a vector with a big enough size to read all epochs
-- 
2.43.0


From 347029b139789ab205cbb40c176fc89bd8d4b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 41/74] fix: an observation file could not be rewound after a
 failed read

---
 src/obsrnx.cpp | 3 ++-
 src/obsrnx.hpp | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 84aae13..df3dc77 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -271,7 +271,8 @@ int ObservationRnx::read_header() noexcept {
     return 20;
   }
 
-  // Mark the end of header
+  // Mark the end of header (the file may well end here)
+  __istream.clear();
   __end_of_head = __istream.tellg();
 
   // All done !
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index df745d6..22fda6c 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -58,7 +58,11 @@ public:
       std::is_nothrow_move_assignable<std::ifstream>::value) = default;
 
   /// @brief Set the stream to end of header
-  void rewind() noexcept { __istream.seekg(__end_of_head); }
+  void rewind() noexcept {
+    // seekg does nothing on a stream that has failed
+    __istream.clear();
+    __istream.seekg(__end_of_head);
+  }
 
   /// @brief Max observables of any satellite system
   int max_obs() const noexcept;
-- 
2.43.0


From 8a0fc9e4ea7044847c68e0aaacbe6b640d473f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 42/74] fix: observation files were refused when errno was set
 beforehand

---
 src/obsrnx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index df3dc77..c6dda94 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -180,6 +180,9 @@ int ObservationRnx::read_header() noexcept {
   if (!__istream.is_open())
     return 1;
 
+  // conversions are checked via errno; forget about errors of others
+  errno = 0;
+
   // Go to the top of the file.
   __istream.seekg(0);
 
@@ -956,6 +959,8 @@ int ObservationRnx::read_next_epoch(
     int &sats, ngpt::modified_julian_day &mjd, double &secofday) noexcept {
   int c, j;
   sats = 0;
+  // conversions are checked via errno; forget about errors of others
+  errno = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
     __istream.getline(__buf.get(), __buf_sz);
-- 
2.43.0


From fc5ee1a41d76d28e39650cb445fffb445bb4d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 43/74] fix: an impossible date in an observation epoch aborted
 the program

---
 src/obsrnx.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index c6dda94..32ace57 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -411,10 +411,12 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
     }
     start = ++end;
   }
-#ifdef DEBUG
-  day_of_month dom(dints[2]);
-  assert(dom.is_valid(year(dints[0]), month(dints[1])));
-#endif
+  if (!day_of_month(dints[2]).is_valid(year(dints[0]), month(dints[1]))) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() invalid "
+                 "date";
+    std::cerr << "\n        Line was: \"" << cline << "\"";
+    return 2;
+  }
   mjd = ngpt::modified_julian_day(year(dints[0]), month(dints[1]),
                                   day_of_month(dints[2]));
 
-- 
2.43.0


From 95ac346de0b48c960e649a1bde9e01a7b2a0666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 44/74] fix: a satellite count larger than the output vector
 was written past its end

---
 src/obsrnx.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 32ace57..43d900a 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -874,9 +874,9 @@ int ObservationRnx::collect_epoch(
       std::vector<std::pair<ngpt::Satellite, std::vector<double>>>::iterator;
 
   satscollected = 0;
-#ifdef DEBUG
-  assert(satobs.size() >= (std::size_t)numsats);
-#endif
+  // the file should not decide how much of the caller's memory we use
+  if (numsats < 0 || satobs.size() < (std::size_t)numsats)
+    return 2;
   SATELLITE_SYSTEM s;
   int sat_it = 0, prn;
   OutputVecIt ovec_it = satobs.begin();
-- 
2.43.0


From d6243163c266e8e25520cf4540a3ead18fd19417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 45/74] fix: special event records of observation files were
 taken for satellites

---
 src/obsrnx.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 43d900a..d8d8be4 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -959,15 +959,23 @@ int ObservationRnx::read_next_epoch(
     std::map<SATELLITE_SYSTEM, std::vector<vecof_idpair>> &mmap,
     std::vector<std::pair<ngpt::Satellite, std::vector<double>>> &satobs,
     int &sats, ngpt::modified_julian_day &mjd, double &secofday) noexcept {
-  int c, j;
+  int j;
   sats = 0;
   // conversions are checked via errno; forget about errors of others
   errno = 0;
-  if ((c = __istream.peek()) != EOF) {
+  while (__istream.peek() != EOF) {
     // if not EOF, read next line; it should be an epoche header line
     __istream.getline(__buf.get(), __buf_sz);
     double rcvr_coff;
     int flag, num_sats;
+    // skip the special records of an event (its epoch may be blank)
+    if (__buf[0] == '>' && __istream.gcount() >= 35 && __buf[31] >= '2' &&
+        __buf[31] <= '6') {
+      for (num_sats = std::atoi(__buf.get() + 32); num_sats > 0; --num_sats)
+        if (!__istream.getline(__buf.get(), __buf_sz))
+          return 40;
+      continue;
+    }
     // resolve epoch header
     if ((j = __resolve_epoch_304__(__buf.get(), mjd, secofday, flag, num_sats,
                                    rcvr_coff)))
-- 
2.43.0


From 4b7f614265fb3fde4ae68d46fd569ff171da87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 46/74] fix: short header lines of observation files were
 resolved with the label of the line before

---
 src/obsrnx.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index d8d8be4..73b8c21 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -183,12 +183,18 @@ int ObservationRnx::read_header() noexcept {
   // conversions are checked via errno; forget about errors of others
   errno = 0;
 
+  // get the next line; nothing of an earlier one is left behind a short line
+  auto next_line = [&]() {
+    std::memset(line, '\0', MAX_HEADER_CHARS);
+    __istream.getline(line, MAX_HEADER_CHARS);
+  };
+
   // Go to the top of the file.
   __istream.seekg(0);
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   __version = std::strtof(line, &str_end);
   if (str_end == line)
     return 10; // transformation to float has failed
@@ -205,7 +211,7 @@ int ObservationRnx::read_header() noexcept {
   int dummy_it = 0;
   std::size_t szt;
   char *end;
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
@@ -267,7 +273,7 @@ int ObservationRnx::read_header() noexcept {
         return 61;
       }
     }
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line();
     dummy_it++;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
@@ -341,6 +347,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     ++resolved;
     ++vecsz;
     if (resolved == 13 && vecsz < obsnum) {
+      std::memset(line, '\0', sizeof line);
       __istream.getline(line, MAX_HEADER_CHARS);
       if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
-- 
2.43.0


From 50ce217c641aed9048edb4ed877d45709eee2bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 47/74] fix: observation types of one system were continued
 with those of the next

---
 src/obsrnx.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 73b8c21..162014e 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -349,7 +349,9 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     if (resolved == 13 && vecsz < obsnum) {
       std::memset(line, '\0', sizeof line);
       __istream.getline(line, MAX_HEADER_CHARS);
-      if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
+      // a continuation line names no system
+      if (line[0] != ' ' ||
+          std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"SYS / # / OBS TYPES\"";
-- 
2.43.0


From b2ecb1e86e32f0aabb724f876db21113639e8de4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 48/74] fix: an SP3 file could not be rewound after a failed
 read

---
 src/sp3c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index c239596..725fb78 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -38,6 +38,7 @@ Sp3c::Sp3c(const char *filename)
 }
 
 void Sp3c::rewind(pos_type pos) noexcept {
+  __istream.clear(); // a failed read must not block the next ones
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
-- 
2.43.0


From 64d550e6179353a1c0ce0983dd2dfacc71431f0b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 49/74] fix: the agency of SP3 files was cut to three of its
 four columns

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 725fb78..398d394 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -104,7 +104,7 @@ int Sp3c::read_header() noexcept {
   }
   crd_sys__ = std::string(line + 46, 5);
   orb_type__ = std::string(line + 52, 3);
-  agency__ = std::string(line + 56, 3);
+  agency__ = std::string(line + 56, 4);
 
   // all done for first line, construct the reference date
   start_epoch__ = ngpt::datetime<ngpt::microseconds>(
-- 
2.43.0


From b8b5c2ea5d5b767b9b29e8db7f42d2177cc80354 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 50/74] fix: the orbit prediction flag of SP3 records is P, not
 E

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 398d394..ad63f02 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -373,7 +373,7 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
     flag.set(Sp3Event::clock_prediction);
   if (line[78] == 'M')
     flag.set(Sp3Event::maneuver);
-  if (line[79] == 'E')
+  if (line[79] == 'P')
     flag.set(Sp3Event::orbit_prediction);
 
   return 0;
-- 
2.43.0


From 1b010dce59341f03f87fc5c56a9f17078748dcff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 51/74] fix: short lines of SP3 files took flags and fields of
 the line before

---
 src/sp3c.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index ad63f02..8b0f9c3 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -55,6 +55,12 @@ int Sp3c::read_header() noexcept {
   char *str_end;
   int dummy_it = 0;
 
+  // get the next line; nothing of an earlier one is left behind a short line
+  auto next_line = [&]() {
+    std::memset(line, '\0', MAX_HEADER_CHARS);
+    __istream.getline(line, MAX_HEADER_CHARS);
+  };
+
   // The stream should be open by now!
   if (!__istream.is_open())
     return 1;
@@ -64,7 +70,7 @@ int Sp3c::read_header() noexcept {
 
   // Read the first line. Error codes 10-19
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   if (*line != '#')
     return 10; // validate version
   version__ = *(line + 1);
@@ -114,7 +120,7 @@ int Sp3c::read_header() noexcept {
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   if (*line != '#' || line[1] != '#')
     return 20;
   int gwk = std::strtol(line + 3, &str_end, 10);
@@ -149,7 +155,7 @@ int Sp3c::read_header() noexcept {
   // '++'
   // Error code [10,40]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   if (*line != '+' || line[1] != ' ')
     return 30;
   num_sats__ = std::strtol(line + 3, &str_end, 10);
@@ -158,7 +164,7 @@ int Sp3c::read_header() noexcept {
     return 31;
   }
   while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "+ ", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line();
   }
   if (dummy_it >= MAX_HEADER_LINES) {
     return 32;
@@ -168,11 +174,11 @@ int Sp3c::read_header() noexcept {
   // no max limitation for the Sp3d files. Each satellite id line starts with '+
   // ' Error code [40,50]
   // ------------------------------------------------------------
-  // __istream.getline(line, MAX_HEADER_CHARS);
+  // next_line();
   if (*line != '+' || line[1] != '+')
     return 40;
   while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "++", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line();
     char c = __istream.peek();
     if (c != '+')
       break;
@@ -184,18 +190,18 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%c'; collect the system time
   // Error code [50,60]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   if (*line != '%' || line[1] != 'c')
     return 50;
   time_sys__ = std::string(line + 9, 3);
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   if (*line != '%' || line[1] != 'c')
     return 51;
 
   // two line follow, starting with '%f'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line();
     if (*line != '%' || line[1] != 'f')
       return 60;
   }
@@ -203,7 +209,7 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%i'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line();
     if (*line != '%' || line[1] != 'i')
       return 70;
   }
@@ -212,7 +218,7 @@ int Sp3c::read_header() noexcept {
   // ------------------------------------------------------------
   char c = __istream.peek();
   while (c == '/') {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line();
     if (line[1] != '*')
       return 80;
     c = __istream.peek();
@@ -250,6 +256,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 
   if (!__istream.good())
     return 1;
+  std::memset(line, '\0', MAX_RECORD_CHARS);
   __istream.getline(line, MAX_RECORD_CHARS);
 
   if (line[0] != '*' || line[1] != ' ')
@@ -296,6 +303,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   do {
     c = __istream.peek();
     if (c != '*') {
+      // nothing of an earlier line is left behind a short one
+      std::memset(line, '\0', MAX_RECORD_CHARS);
       __istream.getline(line, MAX_RECORD_CHARS);
       if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
-- 
2.43.0


From 43124ec4af705fa16819e45e1889c67a785e323f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 52/74] fix: an SP3 file without EOF record was read forever

---
 src/sp3c.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 8b0f9c3..e819714 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -290,7 +290,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   int prn, j = 0;
   std::array<double, 4> state;
   Sp3Flag flag;
-  bool keep_reading = true;
+  bool keep_reading = true, eof = false;
   auto it = vec.begin();
   /* possible following lines (three first chars):
    * 1. '*  ' i.e an epoch header
@@ -305,15 +305,20 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
     if (c != '*') {
       // nothing of an earlier line is left behind a short one
       std::memset(line, '\0', MAX_RECORD_CHARS);
-      __istream.getline(line, MAX_RECORD_CHARS);
-      if (*line == 'P') { /* position and clock line */
+      if (!__istream.getline(line, MAX_RECORD_CHARS)) {
+        if (!__istream.eof())
+          return 3;
+        /* no EOF line; the file ends here */
+        keep_reading = false;
+        eof = true;
+      } else if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
         *it = Sp3EpochSvRecord{sys, prn, state, flag};
         ++it;
       } else if (!std::strncmp(line, "EOF", 3)) { /* EOF */
         keep_reading = false;
-        j = -1;
+        eof = true;
       } else { /* any other line is irrelevant */
         ;
       }
@@ -323,7 +328,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   } while (keep_reading);
 
   sats_read = std::distance(vec.begin(), it);
-  return j;
+  return (eof) ? (-1) : (0);
 }
 
 /// @brief  Resolve an Sp3 Position & Clock line (aka a line starting with 'P')
-- 
2.43.0


From 20db8d28fb4f414ae2341d6b9fde4e1c10c6da05 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 53/74] fix: more SP3 records than satellites were written past
 the end of the vector

---
 src/sp3c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index e819714..6cbee3f 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -314,6 +314,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
       } else if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
+        if (it == vec.end())
+          return 4;
         *it = Sp3EpochSvRecord{sys, prn, state, flag};
         ++it;
       } else if (!std::strncmp(line, "EOF", 3)) { /* EOF */
-- 
2.43.0


From d652835a2d28adb5e9ad5a8c0d8232ec626849e8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 54/74] fix: SP3 files were refused when errno was set
 beforehand

---
 src/sp3c.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 6cbee3f..9aac440 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -65,6 +65,9 @@ int Sp3c::read_header() noexcept {
   if (!__istream.is_open())
     return 1;
 
+  // conversions are checked via errno; forget about errors of others
+  errno = 0;
+
   // Go to the top of the file.
   __istream.seekg(0);
 
@@ -254,6 +257,9 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   char *end, *start, c;
   int date[5];
 
+  // conversions are checked via errno; forget about errors of others
+  errno = 0;
+
   if (!__istream.good())
     return 1;
   std::memset(line, '\0', MAX_RECORD_CHARS);
-- 
2.43.0


From f0f4ed8ed7235cd940e567c66610a122b889239b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 55/74] fix: an impossible date in an SP3 file terminated the
 program

---
 src/sp3c.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 9aac440..65048fa 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -116,6 +116,8 @@ int Sp3c::read_header() noexcept {
   agency__ = std::string(line + 56, 4);
 
   // all done for first line, construct the reference date
+  if (!ngpt::day_of_month(dom).is_valid(ngpt::year(year), ngpt::month(month)))
+    return 17;
   start_epoch__ = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
       ngpt::hours(hour), ngpt::minutes(minute),
@@ -287,6 +289,9 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
     return 11;
   }
 
+  if (!ngpt::day_of_month(date[2]).is_valid(ngpt::year(date[0]),
+                                            ngpt::month(date[1])))
+    return 12;
   t = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
       ngpt::hours(date[3]), ngpt::minutes(date[4]),
-- 
2.43.0


From 114746bd3d25d6fd65f9c65ab13e9a46a4d2d388 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 56/74] fix: a blank number of an SP3 record was filled with
 the next one

---
 src/sp3c.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 65048fa..3b321e1 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -1,5 +1,6 @@
 #include "sp3c.hpp"
 #include "ggdatetime/datetime_read.hpp"
+#include "nvarstr.hpp"
 #include <algorithm>
 #include <cerrno>
 #include <cstdlib>
@@ -357,7 +358,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
                             std::array<double, 4> &state,
                             Sp3Flag &flag) noexcept {
-  char *end, *start;
+  char *end;
   flag.reset();
 
   if (*line != 'P')
@@ -374,15 +375,8 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
     return 4;
   }
 
-  start = line + 4;
-  for (int i = 0; i < 4; i++) {
-    state[i] = std::strtod(start, &end);
-    if (errno == ERANGE || end == start) {
-      errno = 0;
-      return 5 + i;
-    }
-    start += 14;
-  }
+  if (!ngpt::__char2double__<4, 14>(line + 4, state.data()))
+    return 5;
 
   state[0] *= 1e3;
   state[1] *= 1e3;
-- 
2.43.0


From e69a11a4441fe8919509c6bffe0a9502e638dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 57/74] fix: fractional seconds of SP3 files were truncated to
 the microsecond below

---
 src/sp3c.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 3b321e1..eb63e99 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -3,6 +3,7 @@
 #include "nvarstr.hpp"
 #include <algorithm>
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -122,7 +123,7 @@ int Sp3c::read_header() noexcept {
   start_epoch__ = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
       ngpt::hours(hour), ngpt::minutes(minute),
-      ngpt::microseconds(static_cast<long>(sec * 1e6)));
+      ngpt::microseconds(std::lround(sec * 1e6)));
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
@@ -143,7 +144,7 @@ int Sp3c::read_header() noexcept {
     return 22;
   }
   sec = std::strtod(line + 24, &str_end);
-  interval__ = ngpt::microseconds(static_cast<long>(sec * 1e6));
+  interval__ = ngpt::microseconds(std::lround(sec * 1e6));
   int mjd = std::strtol(line + 39, &str_end, 10);
   if (!mjd || errno == ERANGE) {
     errno = 0;
@@ -296,7 +297,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   t = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
       ngpt::hours(date[3]), ngpt::minutes(date[4]),
-      ngpt::microseconds(static_cast<long>(fsec * 1e6)));
+      ngpt::microseconds(std::lround(fsec * 1e6)));
 
   ngpt::SATELLITE_SYSTEM sys;
   int prn, j = 0;
-- 
2.43.0


From a9ad2bad0c19b01e32507f13ee903971d472ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 58/74] fix: the end of the header of an SP3 file without
 epochs was not marked

---
 src/sp3c.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index eb63e99..e6e9d45 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -233,7 +233,8 @@ int Sp3c::read_header() noexcept {
       return 81;
   }
 
-  // Mark the end of header
+  // Mark the end of header (the file may well end here)
+  __istream.clear();
   __end_of_head = __istream.tellg();
 
   // All done !
-- 
2.43.0


From 903ffc9f77e076ce5d35a17c884ae91f2aa1eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 59/74] fix: an impossible number of satellites in an SP3
 header terminated the program

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index e6e9d45..4c9dbaa 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -166,7 +166,7 @@ int Sp3c::read_header() noexcept {
   if (*line != '+' || line[1] != ' ')
     return 30;
   num_sats__ = std::strtol(line + 3, &str_end, 10);
-  if (!num_sats__ || errno == ERANGE) {
+  if (num_sats__ <= 0 || num_sats__ > 999 || errno == ERANGE) {
     errno = 0;
     return 31;
   }
-- 
2.43.0


From d9aff1726803bf79dc001fa1ee7e38448c174ebd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 60/74] fix: the PRN of SP3 records was read past its two
 columns

---
 src/sp3c.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 4c9dbaa..654b14d 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -371,8 +371,9 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
   } catch (std::runtime_error &e) {
     return 3;
   }
-  prn = std::strtol(line + 2, &end, 10);
-  if (errno == ERANGE || end == line + 2) {
+  const char cprn[3] = {line[2], line[3], '\0'};
+  prn = std::strtol(cprn, &end, 10);
+  if (errno == ERANGE || end == cprn) {
     errno = 0;
     return 4;
   }
-- 
2.43.0


From 204976c160980676af068f0efcf23ed374c402d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 61/74] fix: no channel was found any more after a search to
 the end of the file

---
 src/bern_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 704763e..de6a2b4 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -47,7 +47,9 @@ int ngpt::BernSatellit::get_frequency_channel(
   if (!__istream.is_open())
     return 1;
 
-  // Go to the top of the relevant field (in file)
+  // Go to the top of the relevant field (in file); an earlier search may well
+  // have hit the end of it
+  __istream.clear();
   __istream.seekg(__part2);
 
   // keep reading untill we match svn and epoch
-- 
2.43.0


From 968ad96189673065afbf012b4551f55541da004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 62/74] fix: lines of SATELLIT files were limited to 255
 characters, short ones completed with the line before

---
 src/bern_utils.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index de6a2b4..0cb613b 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -2,6 +2,7 @@
 #include "ggdatetime/datetime_read.hpp"
 #include <cassert>
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #ifdef DEBUG
 #include "ggdatetime/datetime_write.hpp"
@@ -10,6 +11,22 @@
 
 constexpr int MAX_SATELLIT_CHARS = 256;
 
+namespace {
+/// Get the next line of a SATELLIT file. Characters past the end of the buffer
+/// are skipped and nothing of an earlier line is left in the buffer.
+/// @return false if there is no other line
+bool next_line(std::istream &is, char *line) noexcept {
+  std::memset(line, '\0', MAX_SATELLIT_CHARS);
+  if (is.getline(line, MAX_SATELLIT_CHARS))
+    return true;
+  if (is.gcount() != MAX_SATELLIT_CHARS - 1)
+    return false;
+  is.clear();
+  is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+  return true;
+}
+} // namespace
+
 /// Constructor; after this, the stream will be opened, and the start of
 /// 'PART 2' of the file marked.
 ///
@@ -57,7 +74,7 @@ int ngpt::BernSatellit::get_frequency_channel(
   char *end;
   bool satellite_matched = false;
   ngpt::datetime<ngpt::seconds> start, stop;
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  next_line(__istream, line);
   while (!satellite_matched && line_count < max_lines) {
     // we are only interested in satellites of type: 'MW' everything else
     // is desregarded and may cause a problem when resolving; e.g. SLR records
@@ -92,7 +109,7 @@ int ngpt::BernSatellit::get_frequency_channel(
         }
       }
     }
-    __istream.getline(line, MAX_SATELLIT_CHARS);
+    next_line(__istream, line);
     ++line_count;
     // check for end of records
     if (std::strlen(line) < 10 || !std::strncmp("PART 3", line, 6))
@@ -126,7 +143,7 @@ int ngpt::BernSatellit::initialize() noexcept {
 
   // Read the first line and verify
   // ----------------------------------------------------
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  next_line(__istream, line);
   if (std::strncmp(line1, line, line1_sz)) {
     std::cerr << "\n[ERROR] Failed to verify first liine of SATELIT file";
     return 10;
@@ -136,23 +153,23 @@ int ngpt::BernSatellit::initialize() noexcept {
   // PART 2: ON-BOARD SENSORS
   int line_count = 0;
   while (std::strncmp(line2, line, line2_sz) && line_count < max_lines) {
-    __istream.getline(line, MAX_SATELLIT_CHARS);
+    next_line(__istream, line);
     ++line_count;
   }
   // verify that it is ineed the line we want (and the stream is ok)
   if (!__istream.good() || line_count >= max_lines)
     return 11;
   // next line is just a series of  '-' chars
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  next_line(__istream, line);
   // next two lines are column descriptions (for the lines that follow)
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  next_line(__istream, line);
   const char *hln1 = "                                              START TIME "
                      "          END TIME                 SENSOR OFFSETS (M)    "
                      "   SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)";
   const int hln1_sz = std::strlen(hln1);
   if (std::strncmp(hln1, line, hln1_sz))
     return 12;
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  next_line(__istream, line);
   const char *hln2 =
       "PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM "
       "DD HH MM SS         DX        DY        DZ         X       Y       Z    "
@@ -164,7 +181,7 @@ int ngpt::BernSatellit::initialize() noexcept {
 
   // Cool! we leave the stream here and mark this position; next line to be
   // read is an empty line and then a record line
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+  next_line(__istream, line);
   __part2 = __istream.tellg();
 
   // All done !
-- 
2.43.0


From 0988887937e7615f5c38d72cecd2683f8c9a34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 63/74] fix: only the first thousand records of SATELLIT files
 were searched

---
 src/bern_utils.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 0cb613b..1284750 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -57,7 +57,6 @@ ngpt::BernSatellit::BernSatellit(const char *fn)
 ///            >0 -> An error occured while reading the records
 int ngpt::BernSatellit::get_frequency_channel(
     int svn, const ngpt::datetime<ngpt::seconds> &eph, int &ifrqn, int &prn) {
-  const int max_lines = 1000;
   char line[MAX_SATELLIT_CHARS];
 
   // The stream should be open by now!
@@ -70,12 +69,12 @@ int ngpt::BernSatellit::get_frequency_channel(
   __istream.seekg(__part2);
 
   // keep reading untill we match svn and epoch
-  int line_count = 0, csvn;
+  int csvn;
   char *end;
   bool satellite_matched = false;
   ngpt::datetime<ngpt::seconds> start, stop;
   next_line(__istream, line);
-  while (!satellite_matched && line_count < max_lines) {
+  while (!satellite_matched) {
     // we are only interested in satellites of type: 'MW' everything else
     // is desregarded and may cause a problem when resolving; e.g. SLR records
     // have no SVN field
@@ -109,14 +108,13 @@ int ngpt::BernSatellit::get_frequency_channel(
         }
       }
     }
-    next_line(__istream, line);
-    ++line_count;
     // check for end of records
-    if (std::strlen(line) < 10 || !std::strncmp("PART 3", line, 6))
+    if (!next_line(__istream, line) || std::strlen(line) < 10 ||
+        !std::strncmp("PART 3", line, 6))
       return -1;
   }
 
-  return (line_count >= max_lines) ? (-1) : 5;
+  return 5;
 }
 
 /// This function should only be called once, inside the object's constructor.
@@ -126,7 +124,6 @@ int ngpt::BernSatellit::get_frequency_channel(
 /// (inside the file) it is placed (aka store it in __part2).
 /// @return  Anything other than 0, denotes an error
 int ngpt::BernSatellit::initialize() noexcept {
-  const int max_lines = 1000;
   const char *line1 =
       "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2";
   const int line1_sz = std::strlen(line1);
@@ -151,13 +148,10 @@ int ngpt::BernSatellit::initialize() noexcept {
 
   // Read rest of lines untill we hit
   // PART 2: ON-BOARD SENSORS
-  int line_count = 0;
-  while (std::strncmp(line2, line, line2_sz) && line_count < max_lines) {
-    next_line(__istream, line);
-    ++line_count;
-  }
+  while (std::strncmp(line2, line, line2_sz) && next_line(__istream, line))
+    ;
   // verify that it is ineed the line we want (and the stream is ok)
-  if (!__istream.good() || line_count >= max_lines)
+  if (!__istream.good())
     return 11;
   // next line is just a series of  '-' chars
   next_line(__istream, line);
-- 
2.43.0


From e423c7f787e0bc7f65fb104a9af44e60789679a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 64/74] fix: a SATELLIT record without SVN was matched by its
 number

---
 src/bern_utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 1284750..a7aec6e 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -79,8 +79,10 @@ int ngpt::BernSatellit::get_frequency_channel(
     // is desregarded and may cause a problem when resolving; e.g. SLR records
     // have no SVN field
     if (line[5] == 'M' && line[6] == 'W') {
-      csvn = static_cast<int>(std::strtol(line + 28, &end, 10));
-      if (errno == ERANGE || end == line + 28) {
+      char str[6] = {'\0'};
+      std::strncpy(str, line + 28, 5);
+      csvn = static_cast<int>(std::strtol(str, &end, 10));
+      if (errno == ERANGE || end == str) {
         errno = 0;
         return 2;
       }
-- 
2.43.0


From 3494300df0db004cef5c782ab3e7a0267742994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 65/74] fix: a blank frequency channel was reported as channel
 0

---
 src/bern_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index a7aec6e..bcef708 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -99,7 +99,7 @@ int ngpt::BernSatellit::get_frequency_channel(
           satellite_matched = true;
           prn = static_cast<int>(std::strtol(line, &end, 10));
           ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));
-          if (errno == ERANGE) {
+          if (errno == ERANGE || end == line + 193) {
             errno = 0;
             // throw std::runtime_error("[ERROR] Failed to resolve svn from
             // SATELLIT file");
-- 
2.43.0


From 93ef7a8d5ea4828cbbe847707aff28bf4abe8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 66/74] fix: SATELLIT files could not be searched when errno
 was set beforehand

---
 src/bern_utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index bcef708..a93961b 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -1,6 +1,8 @@
 #include "bern_utils.hpp"
 #include "ggdatetime/datetime_read.hpp"
 #include <cassert>
+#include <cerrno>
+#include <cstdlib>
 #include <cstring>
 #include <limits>
 #include <stdexcept>
@@ -63,6 +65,9 @@ int ngpt::BernSatellit::get_frequency_channel(
   if (!__istream.is_open())
     return 1;
 
+  // conversions are checked via errno; forget about errors of others
+  errno = 0;
+
   // Go to the top of the relevant field (in file); an earlier search may well
   // have hit the end of it
   __istream.clear();
-- 
2.43.0


From d2b9546194f9dee6f73c13504545f1403b42ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 67/74] fix: the relativistic clock term was taken at another
 time when the reference epochs of clock and orbit differ

---
 src/navrnx.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 31ff3fe..0d35261 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -147,10 +147,13 @@ public:
     int status = 0;
     double t_sec = this->ref2toe<T>(t);
     // if ((status=gps_ecef(t_sec, state))) return status;
-    if ((status = this->kepler2state<SATELLITE_SYSTEM::gps>(t_sec, state)))
+    // the relativistic clock term is that of the position at t
+    double Ek;
+    if ((status =
+             this->kepler2state<SATELLITE_SYSTEM::gps>(t_sec, state, &Ek)))
       return status;
     t_sec = this->ref2toc<T>(t);
-    status = sv_clock<SATELLITE_SYSTEM::gps>(t_sec, dt);
+    status = sv_clock<SATELLITE_SYSTEM::gps>(t_sec, dt, &Ek);
     // status=gps_dtsv(t_sec, dt);
     return status;
   }
@@ -161,10 +164,13 @@ public:
     int status = 0;
     double t_sec = this->ref2toe<T>(t);
     // if ((status=gal_ecef(t_sec, state))) return status;
-    if ((status = this->kepler2state<SATELLITE_SYSTEM::galileo>(t_sec, state)))
+    // the relativistic clock term is that of the position at t
+    double Ek;
+    if ((status =
+             this->kepler2state<SATELLITE_SYSTEM::galileo>(t_sec, state, &Ek)))
       return status;
     t_sec = this->ref2toc<T>(t);
-    status = sv_clock<SATELLITE_SYSTEM::galileo>(t_sec, dt);
+    status = sv_clock<SATELLITE_SYSTEM::galileo>(t_sec, dt, &Ek);
     // status=gal_dtsv(t_sec, dt);
     return status;
   }
@@ -175,10 +181,13 @@ public:
     int status = 0;
     double t_sec = this->ref2toe<T>(t);
     // if ((status=bds_ecef(t_sec, state))) return status;
-    if ((status = this->kepler2state<SATELLITE_SYSTEM::beidou>(t_sec, state)))
+    // the relativistic clock term is that of the position at t
+    double Ek;
+    if ((status =
+             this->kepler2state<SATELLITE_SYSTEM::beidou>(t_sec, state, &Ek)))
       return status;
     t_sec = this->ref2toc<T>(t);
-    status = sv_clock<SATELLITE_SYSTEM::beidou>(t_sec, dt);
+    status = sv_clock<SATELLITE_SYSTEM::beidou>(t_sec, dt, &Ek);
     // status=bds_dtsv(t_sec, dt);
     return status;
   }
-- 
2.43.0


From 35a82f0cc0f6646a5dafaac1c20ab59f6333f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 68/74] fix: GLONASS positions were those of the next full
 minute from the time of ephemeris

---
 src/glonav.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glonav.cpp b/src/glonav.cpp
index 44614b0..08145d1 100644
--- a/src/glonav.cpp
+++ b/src/glonav.cpp
@@ -321,6 +321,9 @@ int NavDataFrame::glo_ecef(double t_sec, double *state) const noexcept {
   // Perform Runge-Kutta 4th
   // while (std::abs(ti-t_lim)>1e-9 && ++max_it<1500) {
   while (h > 0 ? ti < t_lim : ti > t_lim && ++max_it < 1500) {
+    // the last step ends at t_lim, not behind it
+    if (std::abs(t_lim - ti) < std::abs(h))
+      h = t_lim - ti;
     // compute k1
     glo_state_deriv(yti, acc, k1);
     // compute k2
-- 
2.43.0


From 9c2a2b02065d64b73643b48188558b3c515c37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 69/74] fix: BeiDou GEO satellites were placed with the
 algorithm of the other orbits

---
 src/navrnx.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 0d35261..6a3b8b8 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -344,8 +344,14 @@ private:
     const double xk_dot(rk * std::cos(uk));
     const double yk_dot(rk * std::sin(uk));
 
+    // The elements of BeiDou GEO satellites are those of an inertial frame
+    // tilted by 5 degrees (see BeiDou ICD, User Algorithm for Ephemeris)
+    const bool is_geo = S == SATELLITE_SYSTEM::beidou &&
+                        ((prn__ >= 1 && prn__ <= 5) || prn__ >= 59);
+
     // Corrected longitude of ascending node
-    const double omega_k(data__[13] + (data__[18] - OMEGAE_SYS) * tk -
+    const double omega_k(data__[13] +
+                         (data__[18] - (is_geo ? 0e0 : OMEGAE_SYS)) * tk -
                          OMEGAE_SYS * data__[11]);
     const double sinOk(std::sin(omega_k));
     const double cosOk(std::cos(omega_k));
@@ -355,6 +361,18 @@ private:
     state[1] = xk_dot * sinOk + yk_dot * cosOk * cosik;
     state[2] = yk_dot * std::sin(ik);
 
+    if (is_geo) { // Rz(OMEGAE * tk) * Rx(-5deg)
+      const double xg(state[0]), yg(state[1]), zg(state[2]);
+      const double tilt(-5e0 * 3.1415926535898e0 / 180e0);
+      const double sinT(std::sin(tilt)), cosT(std::cos(tilt));
+      const double sinW(std::sin(OMEGAE_SYS * tk));
+      const double cosW(std::cos(OMEGAE_SYS * tk));
+      const double yt(cosT * yg + sinT * zg);
+      state[0] = cosW * xg + sinW * yt;
+      state[1] = -sinW * xg + cosW * yt;
+      state[2] = -sinT * yg + cosT * zg;
+    }
+
     // all done
     return status;
   }
-- 
2.43.0


From 5983b5a18f1a13075465d19c823677ac83524f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 70/74] fix: keep all nine characters of a COSPAR id
 (YYYY-XXXA)

---
 src/satellite.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satellite.hpp b/src/satellite.hpp
index 5c0dd5b..5194084 100644
--- a/src/satellite.hpp
+++ b/src/satellite.hpp
@@ -27,7 +27,7 @@
 namespace ngpt {
 
 namespace detail {
-constexpr int COSPAR_ID_CHARS = 8;
+constexpr int COSPAR_ID_CHARS = 9;
 }
 
 /// @class Satellite
@@ -113,7 +113,7 @@ private:
                               ///< (QZSS); blank (Compass, SBAS)
   SatelliteAntenna __antenna; ///< antenna type
   char __cospar[detail::COSPAR_ID_CHARS + 1] =
-      "        "; ///< The COSPAR id, aka "YYYY-XXXA" (blank if unknown)
+      "         "; ///< The COSPAR id, aka "YYYY-XXXA" (blank if unknown)
 };                                           // Satellite
 
 } // namespace ngpt
-- 
2.43.0


From 033904085a2f506b4bf990cf3d7614f71b2a4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:43 +0000
Subject: [PATCH 71/74] fix: offsets of an ANTEX antenna whose frequency
 sections are missing were taken from the next antenna

---
 src/antex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/antex.cpp b/src/antex.cpp
index 4f74c88..51276a4 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -733,6 +733,9 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   // of optional fields.
   do {
     fin.getline(hline, MAX_HEADER_CHARS);
+    // do not run into the next antenna
+    if (fin && !std::strncmp(hline + 60, "END OF ANTENNA", 14))
+      break;
   } while (fin && std::strncmp(hline + 60, "START OF FREQUENCY", 18));
 
   ngpt::SATELLITE_SYSTEM ss;
-- 
2.43.0


From 652fb25a486746fb10a83ac20d7905fe080001d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:46 +0000
Subject: [PATCH 72/74] fix: a RINEX observation epoch without readable number
 of satellites was taken for an empty one

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 162014e..d7a5e87 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -445,7 +445,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
 
   // resolve num of satellites in epoch
   num_sats = static_cast<int>(std::strtol(cline + 32, &end, 10));
-  if (errno || start == end) {
+  if (errno || cline + 32 == end || end > cline + 35) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve num sats";
     std::cerr << "\n        Line was: \"" << cline << "\"";
-- 
2.43.0


From ae6f27c11f4371bf424d1376f02b04a8005f27a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:43 +0000
Subject: [PATCH 73/74] fix: a legal SP3 start epoch with fractional seconds
 was refused

---
 src/sp3c.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 654b14d..e138523 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -152,7 +152,8 @@ int Sp3c::read_header() noexcept {
   }
   sec = std::strtod(line + 45, &str_end);
   sec += mjd;
-  if (sec != start_epoch__.as_mjd()) {
+  // the fraction of the day is rounded to 13 digits
+  if (std::abs(sec - start_epoch__.as_mjd()) > 1e-10) {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 24;
   }
-- 
2.43.0


From 2ea28a286a0ce807dee10eba9cafdf43dafc62a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:01 +0000
Subject: [PATCH 74/74] fix: an antenna of more than 5000 lines could not be
 passed in an ANTEX file

---
 src/antex.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 51276a4..e15c989 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -248,18 +248,12 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 /// @return Anything other than 0 denotes an error.
 int Antex::skip_rest_of_antenna() noexcept {
   char line[MAX_GRID_CHARS];
-  int max_antenna_lines = 5000;
 
-  int dummy_it = 0;
   do {
-    __istream.getline(line, MAX_GRID_CHARS);
-    dummy_it++;
-  } while (std::strncmp(line + 60, "END OF ANTENNA", 14) &&
-           dummy_it < max_antenna_lines);
-
-  if (dummy_it >= max_antenna_lines) {
-    return 1;
-  }
+    line[60] = '\0'; // grid lines can be short
+    if (!__istream.getline(line, MAX_GRID_CHARS))
+      return 1;
+  } while (std::strncmp(line + 60, "END OF ANTENNA", 14));
 
   return 0;
 }
-- 
2.43.0

