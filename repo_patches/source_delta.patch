From d049301bce3d0c4c573cc1cfcc0c28f2acaf0719 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 01/95] fix: take the lock in Cache::clear, which raced with
 save and restore

---
 pairinteraction/Cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/Cache.hpp b/pairinteraction/Cache.hpp
index af917fb..356dd24 100644
--- a/pairinteraction/Cache.hpp
+++ b/pairinteraction/Cache.hpp
@@ -97,7 +97,10 @@ public:
      *
      * Delete all elements in the cache
      */
-    void clear() { cache.clear(); }
+    void clear() {
+        std::lock_guard<std::mutex> lock(cache_mutex);
+        cache.clear();
+    }
 };
 
 #endif // CACHE_H
-- 
2.43.0


From 55fe9dc9cbad490667cd61056df29e2383052a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 02/95] fix: keep configuration keys containing dots when
 saving to JSON

---
 pairinteraction/ConfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.cpp b/pairinteraction/ConfParser.cpp
index 1b80465..b43a144 100644
--- a/pairinteraction/ConfParser.cpp
+++ b/pairinteraction/ConfParser.cpp
@@ -41,7 +41,8 @@ void Configuration::save_to_json(std::string const &filename) const {
     ptree pt;
 
     for (auto const &p : *this) {
-        pt.put(p.first, p.second.str());
+        // not pt.put, which would take dots in the key for a path
+        pt.push_back(ptree::value_type(p.first, ptree(p.second.str())));
     }
 
     write_json(filename, pt);
-- 
2.43.0


From bcfa6bfee88a97385ea4cf6e5f788c8a0ebca7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 03/95] fix: store floating-point configuration values with
 full precision

---
 pairinteraction/ConfParser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/ConfParser.hpp b/pairinteraction/ConfParser.hpp
index 833b9a2..1d82b54 100644
--- a/pairinteraction/ConfParser.hpp
+++ b/pairinteraction/ConfParser.hpp
@@ -20,9 +20,11 @@
 #ifndef CONF_PARSER_H
 #define CONF_PARSER_H
 
+#include <limits>
 #include <map>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 /** \brief %Configuration storage
  *
@@ -47,6 +49,10 @@ private:
         template <typename T>
         value &operator<<(T const &rhs) {
             std::ostringstream os;
+            if constexpr (std::is_floating_point<T>::value) {
+                // the number has to be read back unchanged
+                os.precision(std::numeric_limits<T>::max_digits10);
+            }
             os << rhs;
             m_value = os.str();
             return *this;
-- 
2.43.0


From 12c3c67e279851ded43615bf3602576294b8ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 04/95] fix: return whole text columns and treat NULL text as
 empty

---
 pairinteraction/SQLite.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 7ee0b6e..dfac20c 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -244,8 +244,11 @@ public:
     template <typename T,
               typename = typename std::enable_if<std::is_same<T, std::string>::value>::type>
     std::string get(int field) {
-        return std::string(
-            reinterpret_cast<char const *>(sqlite3_column_text(m_stmt.get(), field)));
+        auto text = reinterpret_cast<char const *>(sqlite3_column_text(m_stmt.get(), field));
+        if (text == nullptr) { // NULL
+            return {};
+        }
+        return std::string(text, sqlite3_column_bytes(m_stmt.get(), field));
     }
 #endif
 
-- 
2.43.0


From 6728f5a4499f5483fe09f8fe29c00c70bde55835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 05/95] fix: iterate over all rows of a statement, not always
 exactly two

---
 pairinteraction/SQLite.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index dfac20c..b3592d5 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -262,13 +262,12 @@ public:
     class iterator {
     private:
         statement *m_stmt;
-        bool m_done;
         bool m_end;
 
     public:
-        iterator() : m_stmt{nullptr}, m_done{true}, m_end{true} {}
+        iterator() : m_stmt{nullptr}, m_end{true} {}
 
-        explicit iterator(statement *p) : m_stmt{p}, m_done{false}, m_end{false} { m_stmt->step(); }
+        explicit iterator(statement *p) : m_stmt{p}, m_end{!m_stmt->step()} {}
 
         statement &operator*() const {
 #ifndef NDEBUG
@@ -278,10 +277,8 @@ public:
             return *m_stmt;
         }
         iterator &operator++() {
-            if (!m_done) {
-                m_done = m_stmt->step();
-            } else {
-                m_end = true;
+            if (!m_end) {
+                m_end = !m_stmt->step();
             }
             return *this;
         }
-- 
2.43.0


From fcd4be1c05fddd02a2fda04eb34e02d32d7a3b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 06/95] fix: let the members of a copied QuantumDefect refer to
 the copy

---
 pairinteraction/QuantumDefect.cpp | 5 +++++
 pairinteraction/QuantumDefect.hpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index b3fd1d6..6546e78 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -60,6 +60,11 @@ QuantumDefect::QuantumDefect(std::string _species, int _n, int _l, double _j, st
     : e(), species(std::move(_species)), n(_n), l(_l), j(_j), ac(e.ac), Z(e.Z), a1(e.a1), a2(e.a2),
       a3(e.a3), a4(e.a4), rc(e.rc), nstar(e.nstar), energy(e.energy) {}
 
+QuantumDefect::QuantumDefect(QuantumDefect const &o)
+    : QuantumDefect(o.species, o.n, o.l, o.j, nullptr) {
+    e = o.e;
+}
+
 QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j)
     : QuantumDefect(species, n, l, j, nullptr) {
     static thread_local EmbeddedDatabase embedded_database{};
diff --git a/pairinteraction/QuantumDefect.hpp b/pairinteraction/QuantumDefect.hpp
index 891a46b..786c686 100644
--- a/pairinteraction/QuantumDefect.hpp
+++ b/pairinteraction/QuantumDefect.hpp
@@ -109,6 +109,12 @@ public:
      * j) */
     QuantumDefect(std::string const &species, int n, int l, double j, std::string const &database);
 
+    /** \brief Copy constructor
+     *
+     * The public data members refer to the element stored in the same object.
+     */
+    QuantumDefect(QuantumDefect const &o);
+
     /** \brief Atomic species */
     const std::string species;
 
-- 
2.43.0


From 51f914c12ac6e0d78638712f94a7be011c92e07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 07/95] fix: never answer for one quantum defect database with
 values of another

---
 pairinteraction/QuantumDefect.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index 6546e78..7f73542 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -78,7 +78,8 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
         static thread_local EmbeddedDatabase embedded_database{};
         setup(embedded_database, database);
     } else {
-        static thread_local sqlite::handle db(":memory:");
+        // Do not reuse the connection, it would contain the tables of other databases
+        sqlite::handle db(":memory:");
         sqlite::statement stmt(db);
         std::ifstream ifs(database);
         std::stringstream buffer;
@@ -90,17 +91,16 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
 
 void QuantumDefect::setup(sqlite3 *db, std::string const &db_name) {
     static Cache<Key, Element, Hash> cache;
-    static std::string used_db_name;
 
-    if (used_db_name != db_name) {
-        used_db_name = db_name;
-        cache.clear(); // Clear cache
-    }
+    // Only the content of the embedded database is known to never change
+    bool const use_cache = db_name.empty();
 
     Key const key{species, n, l, j};
-    if (auto oe = cache.restore(key)) {
-        e = oe.value(); // Restore cache
-        return;         // Return early
+    if (use_cache) {
+        if (auto oe = cache.restore(key)) {
+            e = oe.value(); // Restore cache
+            return;         // Return early
+        }
     }
 
     std::stringstream ss;
@@ -198,7 +198,9 @@ void QuantumDefect::setup(sqlite3 *db, std::string const &db_name) {
 
     e.energy = -.5 * (Ry / Ry_inf) / (e.nstar * e.nstar) * au2GHz;
 
-    cache.save(key, e);
+    if (use_cache) {
+        cache.save(key, e);
+    }
 }
 
 double energy_level(std::string const &species, int n, int l, double j,
-- 
2.43.0


From 0417e9891ccc343b88d77064775f8ef6fbc4a916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 08/95] fix: allow several threads to look up the same quantum
 defect

---
 pairinteraction/QuantumDefect.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index 7f73542..e616ee7 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -28,6 +28,7 @@
 #include <exception>
 #include <fstream>
 #include <iostream>
+#include <mutex>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -91,6 +92,10 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
 
 void QuantumDefect::setup(sqlite3 *db, std::string const &db_name) {
     static Cache<Key, Element, Hash> cache;
+    static std::mutex mutex;
+
+    // Prevent that several threads save the same element
+    std::lock_guard<std::mutex> lock(mutex);
 
     // Only the content of the embedded database is known to never change
     bool const use_cache = db_name.empty();
-- 
2.43.0


From 235d9969efc02880f42d5c04b43aebe319818d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 09/95] fix: reject all geometries with an atom inside the
 plate

---
 pairinteraction/GreenTensor.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 495b730..41d0a3f 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -37,16 +37,18 @@ void GreenTensor::addSurface(double d) {
         throw std::runtime_error("The atoms must be in the xz-plane if a surface is present");
     }
 
-    double angle = std::atan(x / z);
+    // The center of the two atoms has the distance d to the plate
+    double const zA_new = d - z / 2.;
+    double const zB_new = d + z / 2.;
 
-    zA = d - z * std::sin(angle) / 2.;
-    zB = d + z * std::sin(angle) / 2.;
-
-    if (zA < 0 || zB < 0) {
+    if (zA_new < 0 || zB_new < 0) {
         throw std::runtime_error(
             "zA or zB < 0. One of the atoms is inside the plate. Plate is half-space z < 0.");
     }
 
+    zA = zA_new;
+    zB = zB_new;
+
     dd_tensor_calculated = false;
     dq_tensor_calculated = false;
     qd_tensor_calculated = false;
-- 
2.43.0


From 0d54f52e4cd2d6b3bf87275e64b8334ea2e08063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 10/95] fix: include the transverse derivatives in the plate
 dipole-quadrupole tensors

---
 pairinteraction/GreenTensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 41d0a3f..b3e3275 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -186,6 +186,10 @@ TensorType GreenTensor::getDQTensorPlate(double x, double zA, double zB) const {
     plate_tensor_second_gradient(2, 0, 0) = -zp;
     plate_tensor_second_gradient(0, 2, 2) = -x;
     plate_tensor_second_gradient(2, 0, 2) = x;
+    plate_tensor_second_gradient(0, 1, 1) = -x;
+    plate_tensor_second_gradient(1, 0, 1) = -x;
+    plate_tensor_second_gradient(1, 2, 1) = zp;
+    plate_tensor_second_gradient(2, 1, 1) = -zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
@@ -225,6 +229,10 @@ TensorType GreenTensor::getQDTensorPlate(double x, double zA, double zB) const {
     gradient_plate_tensor_second(0, 2, 0) = zp;
     gradient_plate_tensor_second(2, 0, 2) = -x;
     gradient_plate_tensor_second(2, 2, 0) = x;
+    gradient_plate_tensor_second(1, 0, 1) = x;
+    gradient_plate_tensor_second(1, 1, 0) = x;
+    gradient_plate_tensor_second(1, 1, 2) = -zp;
+    gradient_plate_tensor_second(1, 2, 1) = zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
-- 
2.43.0


From e9fcb51ecc89587306b8b6deb8bdccd5a34efac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 11/95] fix: keep the Whittaker radial functions in range for
 large principal quantum numbers

---
 pairinteraction/Wavefunction.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pairinteraction/Wavefunction.cpp b/pairinteraction/Wavefunction.cpp
index 08a67bd..5d012c2 100644
--- a/pairinteraction/Wavefunction.cpp
+++ b/pairinteraction/Wavefunction.cpp
@@ -27,6 +27,8 @@
 #include <cctype>
 #include <cmath>
 #ifdef WITH_GSL
+#include <gsl/gsl_errno.h>
+#include <gsl/gsl_math.h>
 #include <gsl/gsl_sf_hyperg.h>
 #endif
 #include <string>
@@ -138,6 +140,20 @@ double WhittakerW(double k, double m, double z) {
 }
 
 double RadialWFWhittaker(double r, double nu, int l) {
+#ifdef WITH_GSL
+    // The gamma functions and the hypergeometric function exceed the range of double precision
+    // numbers for large principal quantum numbers. Hence, we have to combine their logarithms.
+    double const z = 2 * r / nu;
+    if (z > 0 && nu > l) {
+        gsl_sf_result_e10 U;
+        if (gsl_sf_hyperg_U_e10_e(l + 1 - nu, 2 * l + 2, z, &U) != GSL_SUCCESS) {
+            return NAN;
+        }
+        return U.val / nu *
+            std::exp(-.5 * z + (l + 1) * std::log(z) + U.e10 * M_LN10 -
+                     .5 * (std::lgamma(nu + l + 1) + std::lgamma(nu - l)));
+    }
+#endif
     return 1 / std::sqrt(nu * nu * std::tgamma(nu + l + 1) * std::tgamma(nu - l)) *
         WhittakerW(nu, l + .5, 2 * r / nu);
 }
-- 
2.43.0


From 35b296279c00284e96d0a0c13f6538540c470b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 12/95] fix: print the magnetic quantum number of reflected m=0
 states without a sign

---
 pairinteraction/State.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/State.cpp b/pairinteraction/State.cpp
index 38e1b87..6f6c660 100644
--- a/pairinteraction/State.cpp
+++ b/pairinteraction/State.cpp
@@ -54,7 +54,7 @@ inline std::ostream &operator<<(std::ostream &os, getMomentumLabel const &l) {
 ////////////////////////////////////////////////////////////////////
 
 StateOne::StateOne(std::string species, int n, int l, float j, float m)
-    : species(std::move(species)), n(n), l(l), j(j), m(m) {
+    : species(std::move(species)), n(n), l(l), j(j), m(m + 0.f) { // "+ 0" turns -0 into 0
     this->analyzeSpecies();
     hashvalue = 0;
     utils::hash_combine(hashvalue, this->getSpecies());
-- 
2.43.0


From 3225c5f2089ffaa26ad49b01e3a777c093d2d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 13/95] fix: close the text of legacy pair states with integer
 momenta only once

---
 pairinteraction/StateOld.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/StateOld.cpp b/pairinteraction/StateOld.cpp
index b9001cc..2f65396 100644
--- a/pairinteraction/StateOld.cpp
+++ b/pairinteraction/StateOld.cpp
@@ -209,7 +209,7 @@ std::ostream &operator<<(std::ostream &out, const StateTwoOld &state) {
 
         if (std::ceil(state.j[i]) == state.j[i]) {
             out << state.j[i] << ", ";
-            out << "mj=" << state.m[i] << ">";
+            out << "mj=" << state.m[i];
         } else {
             out << 2 * state.j[i] << "/2, ";
             out << "mj=" << 2 * state.m[i] << "/2";
-- 
2.43.0


From 54cf2c3c78fc9eb1e07d514776f79446c37c6b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 14/95] fix: keep the species when building legacy pair states
 from single states

---
 pairinteraction/StateOld.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/StateOld.cpp b/pairinteraction/StateOld.cpp
index 2f65396..1668663 100644
--- a/pairinteraction/StateOld.cpp
+++ b/pairinteraction/StateOld.cpp
@@ -169,7 +169,8 @@ StateTwoOld::StateTwoOld(std::array<int, 2> n, std::array<int, 2> l, std::array<
 }
 
 StateTwoOld::StateTwoOld(idx_t idx, const StateOneOld &a, const StateOneOld &b)
-    : StateOld(idx), n({{a.n, b.n}}), l({{a.l, b.l}}), j({{a.j, b.j}}), m({{a.m, b.m}}) {
+    : StateOld(idx), species({{a.species, b.species}}), n({{a.n, b.n}}), l({{a.l, b.l}}),
+      j({{a.j, b.j}}), m({{a.m, b.m}}) {
     this->analyzeSpecies();
 }
 
@@ -182,6 +183,7 @@ void StateTwoOld::setFirstState(StateOneOld const &s) {
     l[0] = s.l;
     j[0] = s.j;
     m[0] = s.m;
+    this->analyzeSpecies();
 }
 
 StateOneOld StateTwoOld::getSecondState() const {
@@ -193,6 +195,7 @@ void StateTwoOld::setSecondState(StateOneOld const &s) {
     l[1] = s.l;
     j[1] = s.j;
     m[1] = s.m;
+    this->analyzeSpecies();
 }
 
 StateOneOld StateTwoOld::first() const { return StateOneOld(species[0], n[0], l[0], j[0], m[0]); }
-- 
2.43.0


From 5d1fd113bee809f24adb17c6451d98df05775663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 15/95] fix: enumerate all magnetic quantum numbers for
 negative reference values without limit

---
 pairinteraction/Basisnames.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Basisnames.cpp b/pairinteraction/Basisnames.cpp
index d33ce83..61fe493 100644
--- a/pairinteraction/Basisnames.cpp
+++ b/pairinteraction/Basisnames.cpp
@@ -143,7 +143,7 @@ void BasisnamesOne::build(StateTwoOld startstate, const std::string &species) {
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = std::fmax(startstate.m[0], startstate.m[1]) +
+        delta_m = std::fmax(std::fabs(startstate.m[0]), std::fabs(startstate.m[1])) +
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
 
@@ -208,7 +208,7 @@ void BasisnamesOne::build(StateOneOld startstate, const std::string &species) {
         delta_j = startstate.j + startstate.n + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = startstate.m + startstate.n + delta_n - 0.5;
+        delta_m = std::fabs(startstate.m) + startstate.n + delta_n - 0.5;
     }
 
     // loop over quantum numbers
-- 
2.43.0


From b351e70096ac0d11e07c023d9eeb35d9b2ff4fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 16/95] fix: reject stored matrices with an inconsistent
 structure

---
 pairinteraction/Hamiltonianmatrix.cpp |  31 +++++++
 pairinteraction/Hamiltonianmatrix.hpp |   5 ++
 pairinteraction/Serializable.hpp      | 115 ++++++++------------------
 3 files changed, 71 insertions(+), 80 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 5ca7da1..049392f 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -410,6 +410,31 @@ void Hamiltonianmatrix<Scalar>::deserialize(bytes_t &bytesin) {
     doDeserialization();
 }
 
+template <typename Scalar>
+void Hamiltonianmatrix<Scalar>::checkStructure(storage_idx_t rows, storage_idx_t cols,
+                                               const std::vector<storage_double> &data_real,
+                                               const std::vector<storage_double> &data_imag,
+                                               const std::vector<idx_t> &indices,
+                                               const std::vector<idx_t> &indptr) const {
+    bool valid = rows >= 0 && cols >= 0 && indptr.size() == static_cast<size_t>(cols) &&
+        indices.size() == data_real.size() &&
+        data_imag.size() == (utils::is_complex<Scalar>::value ? data_real.size() : 0) &&
+        (indptr.empty() ? indices.empty() : indptr.front() == 0);
+
+    for (size_t col = 0; valid && col < indptr.size(); ++col) {
+        size_t end = col + 1 < indptr.size() ? indptr[col + 1] : indices.size();
+        valid = indptr[col] <= end && end <= indices.size();
+        for (size_t i = indptr[col]; valid && i < end; ++i) {
+            valid = indices[i] < static_cast<idx_t>(rows) &&
+                (i == indptr[col] || indices[i - 1] < indices[i]);
+        }
+    }
+
+    if (!valid) {
+        throw std::runtime_error("Corrupted data discovered.");
+    }
+}
+
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::doDeserialization() {
     // deserialize vectors of primitive data types
@@ -453,6 +478,12 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
         throw std::runtime_error(msg);
     }
 
+    // damaged data must not end up in the matrices
+    checkStructure(entries_rows, entries_cols, entries_data_real, entries_data_imag,
+                   entries_indices, entries_indptr);
+    checkStructure(basis_rows, basis_cols, basis_data_real, basis_data_imag, basis_indices,
+                   basis_indptr);
+
     // build matrix "entries_"
     std::vector<Scalar> entries_data;
     mergeComplex(entries_data_real, entries_data_imag, entries_data);
diff --git a/pairinteraction/Hamiltonianmatrix.hpp b/pairinteraction/Hamiltonianmatrix.hpp
index 829ddd5..e900f46 100644
--- a/pairinteraction/Hamiltonianmatrix.hpp
+++ b/pairinteraction/Hamiltonianmatrix.hpp
@@ -150,6 +150,11 @@ public:
     }
 
 protected:
+    void checkStructure(storage_idx_t rows, storage_idx_t cols,
+                        const std::vector<storage_double> &data_real,
+                        const std::vector<storage_double> &data_imag,
+                        const std::vector<idx_t> &indices, const std::vector<idx_t> &indptr) const;
+
     Eigen::SparseMatrix<Scalar> entries_;
     Eigen::SparseMatrix<Scalar> basis_;
     bytes_t bytes;
diff --git a/pairinteraction/Serializable.hpp b/pairinteraction/Serializable.hpp
index 0fd4fc2..9bd7f2b 100644
--- a/pairinteraction/Serializable.hpp
+++ b/pairinteraction/Serializable.hpp
@@ -22,6 +22,7 @@
 
 #include <iterator>
 #include <memory>
+#include <stdexcept>
 #include <typeindex>
 #include <typeinfo>
 #include <unordered_map>
@@ -153,100 +154,80 @@ private:
         pbytes += sz;
     }
 
+    // Throws unless the remaining bytes contain num items of the given size
+    // TODO use checksum of "bytes" (write checksum into the beginning of "bytes")
+    void require(size_t size, size_t num) const {
+        if (num > static_cast<size_t>(cpbytes_end - cpbytes) / size) {
+            throw std::runtime_error("Corrupted data discovered.");
+        }
+    }
+
     template <class T>
     void deserialize(T &data, size_t num) {
         uint16_t type = 0;
 
-        if (cpbytes + sizeof(uint16_t) > cpbytes_end) {
-            throw std::runtime_error(
-                "Corrupted data discovered."); // TODO use checksum of "bytes" (write checksum into
-                                               // the beginning of "bytes")
-        }
+        require(sizeof(uint16_t), 1);
         auto pbytes_reinterpreted = reinterpret_cast<const type_t *>(&(*cpbytes));
         std::copy(pbytes_reinterpreted, pbytes_reinterpreted + 1, &type);
         cpbytes += sizeof(uint16_t);
 
         if (type == type_ids[std::type_index(typeid(int8_t))]) {
-            if (cpbytes + sizeof(int8_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(int8_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const int8_t *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(int8_t) * num;
         } else if (type == type_ids[std::type_index(typeid(int16_t))]) {
-            if (cpbytes + sizeof(int16_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(int16_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const int16_t *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(int16_t) * num;
         } else if (type == type_ids[std::type_index(typeid(int32_t))]) {
-            if (cpbytes + sizeof(int32_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(int32_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const int32_t *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(int32_t) * num;
         } else if (type == type_ids[std::type_index(typeid(int64_t))]) {
-            if (cpbytes + sizeof(int64_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(int64_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const int64_t *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(int64_t) * num;
         } else if (type == type_ids[std::type_index(typeid(uint8_t))]) {
-            if (cpbytes + sizeof(uint8_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(uint8_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const uint8_t *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(uint8_t) * num;
         } else if (type == type_ids[std::type_index(typeid(uint16_t))]) {
-            if (cpbytes + sizeof(uint16_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(uint16_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const uint16_t *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(uint16_t) * num;
         } else if (type == type_ids[std::type_index(typeid(uint32_t))]) {
-            if (cpbytes + sizeof(uint32_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(uint32_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const uint32_t *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(uint32_t) * num;
         } else if (type == type_ids[std::type_index(typeid(uint64_t))]) {
-            if (cpbytes + sizeof(uint64_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(uint64_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const uint64_t *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(uint64_t) * num;
         } else if (type == type_ids[std::type_index(typeid(float))]) {
-            if (cpbytes + sizeof(float) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(float), num);
             auto pbytes_reinterpreted = reinterpret_cast<const float *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(float) * num;
         } else if (type == type_ids[std::type_index(typeid(double))]) {
-            if (cpbytes + sizeof(double) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(double), num);
             auto pbytes_reinterpreted = reinterpret_cast<const double *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(double) * num;
         } else if (type == type_ids[std::type_index(typeid(char))]) {
-            if (cpbytes + sizeof(char) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(char), num);
             auto pbytes_reinterpreted = reinterpret_cast<const char *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(char) * num;
         } else if (type == type_ids[std::type_index(typeid(bool))]) {
-            if (cpbytes + sizeof(bool) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(bool), num);
             auto pbytes_reinterpreted = reinterpret_cast<const bool *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(bool) * num;
@@ -262,105 +243,79 @@ private:
     void deserialize(std::vector<T> &data, size_t num) {
         uint16_t type = 0;
 
-        if (cpbytes + sizeof(uint16_t) > cpbytes_end) {
-            throw std::runtime_error("Corrupted data discovered.");
-        }
+        require(sizeof(uint16_t), 1);
         auto pbytes_reinterpreted = reinterpret_cast<const type_t *>(&(*cpbytes));
         std::copy(pbytes_reinterpreted, pbytes_reinterpreted + 1, &type);
         cpbytes += sizeof(uint16_t);
 
         if (type == type_ids[std::type_index(typeid(int8_t))]) {
-            if (cpbytes + sizeof(int8_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(int8_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const int8_t *>(&(*cpbytes));
             std::vector<int8_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(int8_t) * num;
         } else if (type == type_ids[std::type_index(typeid(int16_t))]) {
-            if (cpbytes + sizeof(int16_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(int16_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const int16_t *>(&(*cpbytes));
             std::vector<int16_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(int16_t) * num;
         } else if (type == type_ids[std::type_index(typeid(int32_t))]) {
-            if (cpbytes + sizeof(int32_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(int32_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const int32_t *>(&(*cpbytes));
             std::vector<int32_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(int32_t) * num;
         } else if (type == type_ids[std::type_index(typeid(int64_t))]) {
-            if (cpbytes + sizeof(int64_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(int64_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const int64_t *>(&(*cpbytes));
             std::vector<int64_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(int64_t) * num;
         } else if (type == type_ids[std::type_index(typeid(uint8_t))]) {
-            if (cpbytes + sizeof(uint8_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(uint8_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const uint8_t *>(&(*cpbytes));
             std::vector<uint8_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(uint8_t) * num;
         } else if (type == type_ids[std::type_index(typeid(uint16_t))]) {
-            if (cpbytes + sizeof(uint16_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(uint16_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const uint16_t *>(&(*cpbytes));
             std::vector<uint16_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(uint16_t) * num;
         } else if (type == type_ids[std::type_index(typeid(uint32_t))]) {
-            if (cpbytes + sizeof(uint32_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(uint32_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const uint32_t *>(&(*cpbytes));
             std::vector<uint32_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(uint32_t) * num;
         } else if (type == type_ids[std::type_index(typeid(uint64_t))]) {
-            if (cpbytes + sizeof(uint64_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(uint64_t), num);
             auto pbytes_reinterpreted = reinterpret_cast<const uint64_t *>(&(*cpbytes));
             std::vector<uint64_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(uint64_t) * num;
         } else if (type == type_ids[std::type_index(typeid(float))]) {
-            if (cpbytes + sizeof(float) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(float), num);
             auto pbytes_reinterpreted = reinterpret_cast<const float *>(&(*cpbytes));
             std::vector<float> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(float) * num;
         } else if (type == type_ids[std::type_index(typeid(double))]) {
-            if (cpbytes + sizeof(double) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(double), num);
             auto pbytes_reinterpreted = reinterpret_cast<const double *>(&(*cpbytes));
             std::vector<double> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(double) * num;
         } else if (type == type_ids[std::type_index(typeid(char))]) {
-            if (cpbytes + sizeof(char) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(char), num);
             auto pbytes_reinterpreted = reinterpret_cast<const char *>(&(*cpbytes));
             std::vector<char> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(char) * num;
         } else if (type == type_ids[std::type_index(typeid(bool))]) {
-            if (cpbytes + sizeof(bool) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
+            require(sizeof(bool), num);
             auto pbytes_reinterpreted = reinterpret_cast<const bool *>(&(*cpbytes));
             std::vector<bool> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
-- 
2.43.0


From d4a92d5a201f2c0aa9376f2ec8b4b9ab59399cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 17/95] fix: forget the serialized form of a matrix when it is
 rebuilt by compress

---
 pairinteraction/Hamiltonianmatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 049392f..b09a953 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -84,6 +84,7 @@ void Hamiltonianmatrix<Scalar>::addEntries(idx_t row, idx_t col, Scalar val) {
 
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::compress(size_t nBasis, size_t nCoordinates) {
+    bytes.clear();
     basis_.resize(nCoordinates, nBasis);
     entries_.resize(nBasis, nBasis);
     basis_.setFromTriplets(triplets_basis.begin(), triplets_basis.end());
-- 
2.43.0


From 6f72c5275f95c9b66e02c4217792a3a27fa0bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 18/95] fix: report matrix files that cannot be written, close
 files that cannot be read

---
 pairinteraction/Hamiltonianmatrix.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index b09a953..ecda810 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -529,12 +529,17 @@ void Hamiltonianmatrix<Scalar>::save(const std::string &fname) {
     // open file
     FILE *pFile;
     pFile = fopen(fname.c_str(), "wb");
+    if (pFile == nullptr) {
+        throw std::runtime_error("The file " + fname + " could not be opened for writing.");
+    }
 
     // write
-    fwrite(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
+    size_t size_result = fwrite(bytes.data(), 1, sizeof(byte_t) * bytes.size(), pFile);
 
     // close file
-    fclose(pFile);
+    if (fclose(pFile) != 0 || size_result != sizeof(byte_t) * bytes.size()) {
+        throw std::runtime_error("Matrix could not be written to file " + fname + ".");
+    }
 }
 
 template <typename Scalar>
@@ -549,14 +554,15 @@ bool Hamiltonianmatrix<Scalar>::load(const std::string &fname) {
 
             // read
             bytes.resize(size_file / sizeof(byte_t));
-            size_t size_result = fread(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
-            if (size_result != size_file) {
-                throw std::runtime_error("Matrix could not be read from file.");
-            }
+            size_t size_result = fread(bytes.data(), 1, sizeof(byte_t) * bytes.size(), pFile);
 
             // close file
             fclose(pFile);
 
+            if (size_result != size_file) {
+                throw std::runtime_error("Matrix could not be read from file.");
+            }
+
             doDeserialization();
 
             return true;
-- 
2.43.0


From cdfe18baec2bc630c91e0d2f1438817c070b6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 19/95] fix: restore matrices whose stored entries are all in
 the last column

---
 pairinteraction/Hamiltonianmatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index ecda810..29c526b 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -494,7 +494,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(entries_data.begin(), entries_data.end(), entries_.valuePtr());
     std::copy(entries_indices.begin(), entries_indices.end(), entries_.innerIndexPtr());
     std::copy(entries_indptr.begin(), entries_indptr.end(), entries_.outerIndexPtr());
-    entries_.finalize();
+    entries_.outerIndexPtr()[entries_.outerSize()] = entries_data.size();
 
     // build matrix "basis_"
     std::vector<Scalar> basis_data;
@@ -505,7 +505,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(basis_data.begin(), basis_data.end(), basis_.valuePtr());
     std::copy(basis_indices.begin(), basis_indices.end(), basis_.innerIndexPtr());
     std::copy(basis_indptr.begin(), basis_indptr.end(), basis_.outerIndexPtr());
-    basis_.finalize();
+    basis_.outerIndexPtr()[basis_.outerSize()] = basis_data.size();
 }
 
 template <typename Scalar>
-- 
2.43.0


From 668c8dcaf16919f0af9c1a5ce2deedd3b6255bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 20/95] fix: do not keep damaged data as the serialized form of
 a matrix

---
 pairinteraction/Hamiltonianmatrix.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 29c526b..9f73ec0 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -408,7 +408,12 @@ void Hamiltonianmatrix<Scalar>::doSerialization() {
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::deserialize(bytes_t &bytesin) {
     bytes = bytesin;
-    doDeserialization();
+    try {
+        doDeserialization();
+    } catch (...) {
+        bytes.clear(); // do not keep damaged data as the serialized form of this matrix
+        throw;
+    }
 }
 
 template <typename Scalar>
@@ -570,6 +575,7 @@ bool Hamiltonianmatrix<Scalar>::load(const std::string &fname) {
         return false;
 
     } catch (std::exception &e) {
+        bytes.clear(); // do not keep damaged data as the serialized form of this matrix
 #pragma omp critical(textoutput)
         std::cerr << e.what() << std::endl;
         return false;
-- 
2.43.0


From f0e61a33ed8c9d07cdc00666698704fe5f529d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 21/95] fix: read stored booleans bytewise, a damaged byte may
 have any value

---
 pairinteraction/Serializable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Serializable.hpp b/pairinteraction/Serializable.hpp
index 9bd7f2b..24ad2b3 100644
--- a/pairinteraction/Serializable.hpp
+++ b/pairinteraction/Serializable.hpp
@@ -228,7 +228,7 @@ private:
             cpbytes += sizeof(char) * num;
         } else if (type == type_ids[std::type_index(typeid(bool))]) {
             require(sizeof(bool), num);
-            auto pbytes_reinterpreted = reinterpret_cast<const bool *>(&(*cpbytes));
+            auto pbytes_reinterpreted = reinterpret_cast<const uint8_t *>(&(*cpbytes));
             std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
             cpbytes += sizeof(bool) * num;
         } else {
@@ -316,7 +316,7 @@ private:
             cpbytes += sizeof(char) * num;
         } else if (type == type_ids[std::type_index(typeid(bool))]) {
             require(sizeof(bool), num);
-            auto pbytes_reinterpreted = reinterpret_cast<const bool *>(&(*cpbytes));
+            auto pbytes_reinterpreted = reinterpret_cast<const uint8_t *>(&(*cpbytes));
             std::vector<bool> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
             data.insert(data.end(), vectmp.begin(), vectmp.end());
             cpbytes += sizeof(bool) * num;
-- 
2.43.0


From f645fdac263105763d340f0c777c2bbb69d59912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 22/95] fix: pick one pair vector per mirror pair also for
 exchangeable atoms with unequal momenta

---
 pairinteraction/Hamiltonianmatrix.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 9f73ec0..33131ae 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -734,8 +734,13 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
                             continue;
                         }
 
-                        // In case of reflection symmetry: skip half of the coordinates
-                        if (sym.reflection != NA && state.m[0] < 0 && !skip_reflection) {
+                        // In case of reflection symmetry: skip half of the coordinates (if the
+                        // atoms are exchangeable, the choice must not depend on their order)
+                        bool skip_coordinate = state.m[0] < 0;
+                        if ((sym.inversion != NA || sym.permutation != NA) && M != 0) {
+                            skip_coordinate = M < 0;
+                        }
+                        if (sym.reflection != NA && skip_coordinate && !skip_reflection) {
                             continue;
                         }
 
-- 
2.43.0


From 341f7cfcebc03eb88ccdb1d0e513b6d05ff6f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 23/95] fix: reject truncated and damaged matrix files in the
 GUI reader

---
 pairinteraction_gui/loader.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pairinteraction_gui/loader.py b/pairinteraction_gui/loader.py
index f831fb7..bafbfa4 100644
--- a/pairinteraction_gui/loader.py
+++ b/pairinteraction_gui/loader.py
@@ -31,7 +31,7 @@ class BinaryLoader:
             1108: "uint8",
             1116: "uint16",
             1132: "uint32",
-            1164: "int64",
+            1164: "uint64",
             2032: "float32",
             2064: "float64",
         }
@@ -42,11 +42,14 @@ class BinaryLoader:
         self.complex_not_real = 0x02  # xx0x: real, xx1x: complex
 
     def readNumber(self, f, sz=None):
+        count = 1 if sz is None else int(sz)
+        if count < 0:
+            raise ValueError("Corrupted data discovered.")
         datatype = self.typeIds[np.fromfile(f, dtype=np.dtype(self.type_t), count=1)[0]]
-        if sz is None:
-            return np.fromfile(f, dtype=np.dtype(datatype), count=1)[0]
-        else:
-            return np.fromfile(f, dtype=np.dtype(datatype), count=sz)
+        numbers = np.fromfile(f, dtype=np.dtype(datatype), count=count)
+        if len(numbers) != count:
+            raise ValueError("Corrupted data discovered.")
+        return numbers[0] if sz is None else numbers
 
     def readVector(self, f):
         size = self.readNumber(f)
@@ -63,9 +66,14 @@ class BinaryLoader:
         indices = self.readVector(f)
         indptr = np.append(self.readVector(f), len(data))
         if flags & self.csr_not_csc:
-            return sparse.csr_matrix((data, indices, indptr), shape=(rows, cols))
+            matrix = sparse.csr_matrix((data, indices, indptr), shape=(rows, cols))
         else:
-            return sparse.csc_matrix((data, indices, indptr), shape=(rows, cols))
+            matrix = sparse.csc_matrix((data, indices, indptr), shape=(rows, cols))
+        # damaged indices must not be used
+        matrix.check_format(full_check=True)
+        if np.any(matrix.indptr[1:] < matrix.indptr[:-1]):
+            raise ValueError("Corrupted data discovered.")
+        return matrix
 
 
 class Eigensystem(BinaryLoader):
-- 
2.43.0


From 5ac6e6f7651c913f0c7e3435ae5dc284d2882334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 24/95] fix: return the energies of matrices without stored
 entries in the GUI reader

---
 pairinteraction_gui/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/loader.py b/pairinteraction_gui/loader.py
index bafbfa4..1c9d452 100644
--- a/pairinteraction_gui/loader.py
+++ b/pairinteraction_gui/loader.py
@@ -99,7 +99,7 @@ class Eigensystem(BinaryLoader):
         if self._energies is None:
             with open(self._filename + ".mat", "rb") as f:
                 tmp = self.readMatrix(f)
-                if tmp.size:
+                if min(tmp.shape) > 0:
                     self._energies = np.real(tmp.diagonal())
                 else:
                     self._energies = np.array([])
@@ -114,7 +114,7 @@ class Eigensystem(BinaryLoader):
                     f.seek(self._shift, 0)
                 else:
                     tmp = self.readMatrix(f)
-                    if tmp.size:
+                    if min(tmp.shape) > 0:
                         self._energies = np.real(tmp.diagonal())
                     else:
                         self._energies = np.array([])
-- 
2.43.0


From 20d26e15e38829e2d438f5da055d2e299b986c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 25/95] fix: store the matrix elements of the pipeline with
 full precision

The values were written to the cache database with six significant digits, so
that a run that finds them in the database gives other results than the run
that calculated them.
---
 pairinteraction/MatrixElements.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 88edc3b..b5c5a7a 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -252,6 +252,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
     // --- determine elements ---
 
     std::stringstream ss;
+    ss.precision(std::numeric_limits<double>::max_digits10); // store the values without rounding
 
     stmt.exec("begin transaction;");
 
-- 
2.43.0


From 7bbfa942de34aee1d06170fcf799f262185aec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 26/95] fix: magnetic dipole matrix elements vanish between
 states of different l

---
 pairinteraction/MatrixElementCache.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 99f6aa3..e3e57dc 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -366,6 +366,11 @@ double MatrixElementCache::getMagneticDipole(StateOne const &state_row, StateOne
         throw std::runtime_error("The species must be the same for the final and initial state.");
     }
 
+    // The magnetic dipole operator does not act on the radial coordinate and conserves l
+    if (state_row.getL() != state_col.getL()) {
+        return 0;
+    }
+
     const std::string &species = state_row.getSpecies();
     const float &s = state_row.getS();
 
-- 
2.43.0


From 9c7a4ef523dd6f660221954e2b21ef19be715971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 27/95] fix: use the spin of the species for the matrix
 elements of the pipeline

The recoupling coefficients and the spin contribution to the magnetic moment
assumed spin 1/2, so that they were wrong for singlet and triplet states of
alkaline earth atoms. The coefficients for other spins are kept in tables of
their own, since the tables of the cache database do not tell the spin.
---
 pairinteraction/MatrixElements.cpp | 61 ++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index b5c5a7a..66763c8 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -145,8 +145,8 @@ double MatrixElements::getMagneticMomentum(StateOneOld const &state_row,
              cache_reduced_commutes_l[1][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
                                                      {{state_row.j, state_col.j}}, {{0, 0}})] *
              std::sqrt(
-                 0.5 * (0.5 + 1) *
-                 (2 * 0.5 +
+                 s * (s + 1) *
+                 (2 * s +
                   1))); // TODO give the radial matrix element the unit au2GHz / au2G * muB (for the
                         // electric momentum, the radial matrix element already carries the unit)
     return val;
@@ -200,6 +200,12 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
     sqlite::handle db(dbname);
     sqlite::statement stmt(db);
 
+    // The names of the tables with the elements that depend on the spin (the tables without suffix
+    // belong to spin 1/2)
+    std::string suffix = (s == 0.5) ? "" : fmt::format("_spin{:d}", static_cast<int>(2 * s));
+    std::string table_reduced_commutes_s = "cache_reduced_commutes_s" + suffix;
+    std::string table_reduced_commutes_l = "cache_reduced_commutes_l" + suffix;
+
     // --- create cache tables if necessary (reduced_moemntumS and reduced_moemntumL need not to be
     // cached since they are trivial) ---
 
@@ -223,7 +229,8 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
     }
 
     if (calcElectricMultipole || calcMagneticMomentum) {
-        stmt.exec("CREATE TABLE IF NOT EXISTS cache_reduced_commutes_s ("
+        stmt.exec("CREATE TABLE IF NOT EXISTS " + table_reduced_commutes_s +
+                  " ("
                   "k integer, l1 integer, j1 double,"
                   "l2 integer, j2 double, value double, UNIQUE (k, l1, j1, l2, j2));");
         stmt.exec("CREATE TEMPORARY TABLE tmp_reduced_commutes_s ("
@@ -232,7 +239,8 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
     }
 
     if (calcMagneticMomentum) {
-        stmt.exec("CREATE TABLE IF NOT EXISTS cache_reduced_commutes_l ("
+        stmt.exec("CREATE TABLE IF NOT EXISTS " + table_reduced_commutes_l +
+                  " ("
                   "k integer, l1 integer, j1 double,"
                   "l2 integer, j2 double, value double, UNIQUE (k, l1, j1, l2, j2));");
         stmt.exec("CREATE TEMPORARY TABLE tmp_reduced_commutes_l ("
@@ -395,7 +403,8 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
 
     if (calcElectricMultipole || calcMagneticMomentum) {
         ss.str(std::string());
-        ss << "SELECT c.l1, c.j1, c.l2, c.j2, c.value FROM cache_reduced_commutes_s c INNER JOIN "
+        ss << "SELECT c.l1, c.j1, c.l2, c.j2, c.value FROM " << table_reduced_commutes_s
+           << " c INNER JOIN "
               "tmp_reduced_commutes_s t ON ("
            << "c.l1 = t.l1 AND c.j1 = t.j1 AND c.l2 = t.l2 AND c.j2 = t.j2) "
            << "WHERE c.k = " << kappa << ";";
@@ -414,7 +423,8 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
 
     if (calcMagneticMomentum) {
         ss.str(std::string());
-        ss << "SELECT c.l1, c.j1, c.l2, c.j2, c.value FROM cache_reduced_commutes_l c INNER JOIN "
+        ss << "SELECT c.l1, c.j1, c.l2, c.j2, c.value FROM " << table_reduced_commutes_l
+           << " c INNER JOIN "
               "tmp_reduced_commutes_l t ON ("
            << "c.l1 = t.l1 AND c.j1 = t.j1 AND c.l2 = t.l2 AND c.j2 = t.j2) "
            << "WHERE c.k = " << kappa << ";";
@@ -501,24 +511,25 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
 
                 // Check triangle conditions (violated e.g. for WignerSymbols::wigner6j(0, 0.5, 0.5,
                 // 0.5, 0, 1))
-                if (state.l[0] >= std::abs(state.j[0] - 0.5) && state.l[0] <= state.j[0] + 0.5 &&
+                if (state.l[0] >= std::abs(state.j[0] - s) && state.l[0] <= state.j[0] + s &&
                     state.l[0] >= std::abs(state.l[1] - kappa) &&
                     state.l[0] <= state.l[1] + kappa &&
                     state.j[1] >= std::abs(state.j[0] - kappa) &&
-                    state.j[1] <= state.j[0] + kappa && state.j[1] >= std::abs(state.l[1] - 0.5) &&
-                    state.j[1] <= state.l[1] + 0.5) {
-                    cache.second = std::pow(-1, state.l[0] + 0.5 + state.j[1] + kappa) *
+                    state.j[1] <= state.j[0] + kappa && state.j[1] >= std::abs(state.l[1] - s) &&
+                    state.j[1] <= state.l[1] + s) {
+                    cache.second = std::pow(-1, state.l[0] + s + state.j[1] + kappa) *
                         std::sqrt((2 * state.j[0] + 1) * (2 * state.j[1] + 1)) *
-                        WignerSymbols::wigner6j(state.l[0], state.j[0], 0.5, state.j[1], state.l[1],
+                        WignerSymbols::wigner6j(state.l[0], state.j[0], s, state.j[1], state.l[1],
                                                 kappa);
                 } else {
                     cache.second = 0;
                 }
 
                 ss.str(std::string());
-                ss << "insert into cache_reduced_commutes_s (k, l1, j1, l2, j2, value) values ("
-                   << kappa << "," << state.l[0] << "," << state.j[0] << "," << state.l[1] << ","
-                   << state.j[1] << "," << cache.second << ");";
+                ss << "insert into " << table_reduced_commutes_s
+                   << " (k, l1, j1, l2, j2, value) values (" << kappa << "," << state.l[0] << ","
+                   << state.j[0] << "," << state.l[1] << "," << state.j[1] << "," << cache.second
+                   << ");";
                 stmt.exec(ss.str());
             }
         }
@@ -529,14 +540,24 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
             if (cache.second == std::numeric_limits<double>::max()) {
                 auto state = cache.first;
 
-                cache.second = std::pow(-1, state.l[0] + 0.5 + state.j[0] + kappa) *
-                    std::sqrt((2 * state.j[0] + 1) * (2 * state.j[1] + 1)) *
-                    WignerSymbols::wigner6j(0.5, state.j[0], state.l[0], state.j[1], 0.5, kappa);
+                // Check triangle conditions
+                if (s >= std::abs(state.j[0] - state.l[0]) && s <= state.j[0] + state.l[0] &&
+                    s >= std::abs(s - kappa) && s <= s + kappa &&
+                    state.j[1] >= std::abs(state.j[0] - kappa) &&
+                    state.j[1] <= state.j[0] + kappa && state.j[1] >= std::abs(s - state.l[0]) &&
+                    state.j[1] <= s + state.l[0]) {
+                    cache.second = std::pow(-1, state.l[0] + s + state.j[0] + kappa) *
+                        std::sqrt((2 * state.j[0] + 1) * (2 * state.j[1] + 1)) *
+                        WignerSymbols::wigner6j(s, state.j[0], state.l[0], state.j[1], s, kappa);
+                } else {
+                    cache.second = 0;
+                }
 
                 ss.str(std::string());
-                ss << "insert into cache_reduced_commutes_l (k, l1, j1, l2, j2, value) values ("
-                   << kappa << "," << state.l[0] << "," << state.j[0] << "," << state.l[1] << ","
-                   << state.j[1] << "," << cache.second << ");";
+                ss << "insert into " << table_reduced_commutes_l
+                   << " (k, l1, j1, l2, j2, value) values (" << kappa << "," << state.l[0] << ","
+                   << state.j[0] << "," << state.l[1] << "," << state.j[1] << "," << cache.second
+                   << ");";
                 stmt.exec(ss.str());
             }
         }
-- 
2.43.0


From c06d4e209337b1412e7238796521efe778471340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 28/95] fix: keep MatrixElementCache usable after a failed
 request

An exception left the transaction open and the failing elements in the lists
of missing elements, so that all later requests failed as well.
---
 pairinteraction/MatrixElementCache.cpp | 25 +++++++++++++++++++++++--
 pairinteraction/MatrixElementCache.hpp |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index e3e57dc..5e124cb 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -639,6 +639,29 @@ int MatrixElementCache::update() {
         return 0;
     }
 
+    try {
+        this->obtainMissing();
+    } catch (...) {
+        // Forget about the missing elements so that the failure does not affect later requests
+        cache_radial_missing.clear();
+        cache_angular_missing.clear();
+        cache_reduced_commutes_s_missing.clear();
+        cache_reduced_commutes_l_missing.clear();
+        cache_reduced_multipole_missing.clear();
+
+        // Close the transaction if it is still open
+        if (!dbname.empty() && sqlite3_get_autocommit(*db) == 0) {
+            stmt->exec("rollback transaction;");
+        }
+
+        throw;
+    }
+
+    return 1;
+}
+
+void MatrixElementCache::obtainMissing() {
+
     // --- Load from database ---
     if (!dbname.empty()) {
 
@@ -966,8 +989,6 @@ int MatrixElementCache::update() {
     if (!dbname.empty()) {
         stmt->exec("commit transaction;");
     }
-
-    return 1;
 }
 
 size_t MatrixElementCache::size() {
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 34db630..ea596ab 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -84,6 +84,7 @@ public:
 
 private:
     int update();
+    void obtainMissing();
     void precalculate(std::shared_ptr<const BasisnamesOne> basis_one, int kappa, int q, int kappar,
                       bool calcMultipole, bool calcMomentum, bool calcRadial);
     double calcRadialElement(const QuantumDefect &qd1, int power, const QuantumDefect &qd2);
-- 
2.43.0


From 7d657524518c9a61a4a2106bc368b48b094878b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 29/95] fix: MatrixElementCache::setDefectDB takes effect for
 radial elements already in memory

The radial matrix elements calculated with the previous quantum defects were
returned further on, and an archived cache forgot about the database in use.
---
 pairinteraction/MatrixElementCache.cpp | 4 ++++
 pairinteraction/MatrixElementCache.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 5e124cb..3932948 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -127,6 +127,9 @@ void MatrixElementCache::setDefectDB(std::string const &path) {
 
     // Prevent using the cache file to avoid inconsistencies through the user defined database
     dbname = "";
+
+    // Forget about the radial matrix elements that were calculated with the previous database
+    cache_radial = cache_radial_tabulated;
 }
 
 void MatrixElementCache::setMethod(method_t const &m) {
@@ -200,6 +203,7 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
             (key3.sgn * cache_reduced_commutes_s[key3] * key4.sgn * cache_reduced_multipole[key4]);
 
         cache_radial[key1] = val;
+        cache_radial_tabulated[key1] = val;
     }
 }
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index ea596ab..ca30358 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -180,6 +180,8 @@ private:
     };
 
     std::unordered_map<CacheKey_cache_radial, double, CacheKeyHasher_cache_radial> cache_radial;
+    std::unordered_map<CacheKey_cache_radial, double, CacheKeyHasher_cache_radial>
+        cache_radial_tabulated; // elements provided by the user via loadElectricDipoleDB
     std::unordered_map<CacheKey_cache_angular, double, CacheKeyHasher_cache_angular> cache_angular;
     std::unordered_map<CacheKey_cache_reduced_commutes, double,
                        CacheKeyHasher_cache_reduced_commutes>
@@ -215,10 +217,11 @@ private:
     template <class Archive>
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &CEREAL_NVP(method);
+        ar &CEREAL_NVP(defectdbname);
         ar &CEREAL_NVP(dbname);
         ar &CEREAL_NVP(cache_radial) & CEREAL_NVP(cache_angular) &
             CEREAL_NVP(cache_reduced_commutes_s) & CEREAL_NVP(cache_reduced_commutes_l) &
-            CEREAL_NVP(cache_reduced_multipole);
+            CEREAL_NVP(cache_reduced_multipole) & CEREAL_NVP(cache_radial_tabulated);
         ar &CEREAL_NVP(cache_radial_missing) & CEREAL_NVP(cache_angular_missing) &
             CEREAL_NVP(cache_reduced_commutes_s_missing) &
             CEREAL_NVP(cache_reduced_commutes_l_missing) &
-- 
2.43.0


From 766d4173da12b149b8d0cdad672a364df05d40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 30/95] fix: incomplete rows of an electric dipole database
 were read out of bounds

---
 pairinteraction/MatrixElementCache.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 3932948..e51538b 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -155,13 +155,13 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
         std::vector<std::string> tk_vec(tk.begin(), tk.end());
 
         try {
-            int n1 = std::stoi(tk_vec[0]);
-            int l1 = std::stoi(tk_vec[1]);
-            float j1 = std::stof(tk_vec[2]);
-            int n2 = std::stoi(tk_vec[3]);
-            int l2 = std::stoi(tk_vec[4]);
-            float j2 = std::stof(tk_vec[5]);
-            double val = std::stod(tk_vec[6]);
+            int n1 = std::stoi(tk_vec.at(0));
+            int l1 = std::stoi(tk_vec.at(1));
+            float j1 = std::stof(tk_vec.at(2));
+            int n2 = std::stoi(tk_vec.at(3));
+            int l2 = std::stoi(tk_vec.at(4));
+            float j2 = std::stof(tk_vec.at(5));
+            double val = std::stod(tk_vec.at(6));
 
             // Convert the radial matrix element to um
             val *= au2um;
@@ -178,7 +178,7 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
             auto key4 = CacheKey_cache_reduced_multipole(kappa_angular, l1, l2);
             cache_reduced_multipole_missing.insert(key4);
 
-        } catch (std::invalid_argument &e) {
+        } catch (std::logic_error &e) { // no number, number out of range, or missing column
             if (!firstline) { // Skip header
                 std::cerr << "WARNING: During loading the electric dipole database, the error '"
                           << e.what() << "' occured." << std::endl;
-- 
2.43.0


From c9f18e235c472790f604bbd2b0cb81b8b11d6b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 31/95] fix: sign of tabulated electric dipole elements given
 from higher to lower state

The value of a row was taken as if the states were ordered as in the cache, so
that the sign was wrong if the row lists them the other way around and j
differs by one.
---
 pairinteraction/MatrixElementCache.cpp | 32 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index e51538b..765fbd0 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -146,7 +146,13 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
 
     // Get the radial matrix elements from the CSV file
     boost::escaped_list_separator<char> els("", ";", "\"\'");
-    std::vector<std::pair<CacheKey_cache_radial, double>> radial_raw_data;
+    struct RawData {
+        CacheKey_cache_radial key1;
+        CacheKey_cache_reduced_commutes key3;
+        CacheKey_cache_reduced_multipole key4;
+        double val;
+    };
+    std::vector<RawData> radial_raw_data;
     std::ifstream ifs(path.c_str());
     std::string line;
     bool firstline = true;
@@ -166,11 +172,9 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
             // Convert the radial matrix element to um
             val *= au2um;
 
-            // Store the radial matrix element
+            // Key of the radial matrix element
             auto key1 =
                 CacheKey_cache_radial(method, species, kappa_angular, n1, n2, l1, l2, j1, j2);
-            radial_raw_data.emplace_back(key1, val);
-
             // Store which expressions are needed for converting the radial matrix element to a
             // reduced radial matrix element
             auto key3 = CacheKey_cache_reduced_commutes(s, kappa_angular, l1, l2, j1, j2);
@@ -178,6 +182,8 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
             auto key4 = CacheKey_cache_reduced_multipole(kappa_angular, l1, l2);
             cache_reduced_multipole_missing.insert(key4);
 
+            radial_raw_data.push_back({key1, key3, key4, val});
+
         } catch (std::logic_error &e) { // no number, number out of range, or missing column
             if (!firstline) { // Skip header
                 std::cerr << "WARNING: During loading the electric dipole database, the error '"
@@ -194,16 +200,14 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
 
     // Calculate the reduced radial matrix element and save it to the in-memory cache (it's not
     // saved to the sqlite database)
-    for (auto const &pair : radial_raw_data) {
-        auto key1 = pair.first;
-        auto key3 = CacheKey_cache_reduced_commutes(s, kappa_angular, key1.l[0], key1.l[1],
-                                                    key1.j[0], key1.j[1]);
-        auto key4 = CacheKey_cache_reduced_multipole(kappa_angular, key1.l[0], key1.l[1]);
-        double val = pair.second /
-            (key3.sgn * cache_reduced_commutes_s[key3] * key4.sgn * cache_reduced_multipole[key4]);
-
-        cache_radial[key1] = val;
-        cache_radial_tabulated[key1] = val;
+    // (the signs of key3 and key4 take into account the order of the states in the CSV file)
+    for (auto const &raw : radial_raw_data) {
+        double val = raw.val /
+            (raw.key3.sgn * cache_reduced_commutes_s[raw.key3] * raw.key4.sgn *
+             cache_reduced_multipole[raw.key4]);
+
+        cache_radial[raw.key1] = val;
+        cache_radial_tabulated[raw.key1] = val;
     }
 }
 
-- 
2.43.0


From c9fb9cf394a1de582389f85c21edaf3650662c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 32/95] fix: precalculated radial elements use the method that
 was set when they were requested

Pending elements were calculated with the method in use at the time of the next
request, and stored in the cache database as values of the other method.
---
 pairinteraction/MatrixElementCache.cpp | 4 ++--
 pairinteraction/MatrixElementCache.hpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 765fbd0..467d2cf 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -542,7 +542,7 @@ void MatrixElementCache::precalculateDiamagnetism(const std::vector<StateOne> &b
 /// Utility methods ////////////////////////////////////////////////
 ////////////////////////////////////////////////////////////////////
 
-double MatrixElementCache::calcRadialElement(const QuantumDefect &qd1, int power,
+double MatrixElementCache::calcRadialElement(method_t method, const QuantumDefect &qd1, int power,
                                              const QuantumDefect &qd2) {
     if (method == NUMEROV) {
         return std::pow(au2um, power) * IntegrateRadialElement<Numerov>(qd1, power, qd2);
@@ -820,7 +820,7 @@ void MatrixElementCache::obtainMissing() {
             double val = 0;
             QuantumDefect qd1(cached.species, cached.n[0], cached.l[0], cached.j[0], defectdbname);
             QuantumDefect qd2(cached.species, cached.n[1], cached.l[1], cached.j[1], defectdbname);
-            val = calcRadialElement(qd1, cached.kappa, qd2);
+            val = calcRadialElement(cached.method, qd1, cached.kappa, qd2);
 
             cache_radial.insert({cached, val});
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index ca30358..e4a7f47 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -87,7 +87,8 @@ private:
     void obtainMissing();
     void precalculate(std::shared_ptr<const BasisnamesOne> basis_one, int kappa, int q, int kappar,
                       bool calcMultipole, bool calcMomentum, bool calcRadial);
-    double calcRadialElement(const QuantumDefect &qd1, int power, const QuantumDefect &qd2);
+    double calcRadialElement(method_t method, const QuantumDefect &qd1, int power,
+                             const QuantumDefect &qd2);
     void precalculate(const std::vector<StateOne> &basis_one, int kappa_angular, int q,
                       int kappa_radial, bool calcElectricMultipole, bool calcMagneticMomentum,
                       bool calcRadial);
-- 
2.43.0


From 8f38937253aea4eb1ec1ead542593941daed26a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 33/95] fix: requesting the pair quantum numbers changed those
 of the first atom

The list of quantum numbers kept by the configuration was extended in place.
---
 pairinteraction_gui/pipy/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index d7b42de..359d873 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -330,7 +330,7 @@ class Config:
             else:
                 raise ValueError("Atom qnumbers must be a list of 4-tuples or a Nx4 array.")
         elif self.useQnumbersSingleAsPair():
-            qnsSingle = self.qnumbersSingle(1)
+            qnsSingle = list(self.qnumbersSingle(1))
             if not self.useSameAtom():
                 qnsSingle += self.qnumbersSingle(2)
             if len(qnsSingle) != 2:
-- 
2.43.0


From 4038a1c9a379e1904d4e65d07a4f1b66b7144aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 34/95] fix: energies of the second atom were calculated for
 the species of the first one

---
 pairinteraction_gui/pipy/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index 359d873..33b6547 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -224,7 +224,7 @@ class Config:
                 from pairinteraction import pireal
 
                 pi = pireal
-            states = [pi.StateOne(self.species(), *qn) for qn in self.qnumbersSingle(part)]
+            states = [pi.StateOne(self.species(part), *qn) for qn in self.qnumbersSingle(part)]
             energies = [s.getEnergy() for s in states]
             setattr(self, f"_energiesSingle{part}", energies)
         return getattr(self, f"_energiesSingle{part}")
-- 
2.43.0


From 0303fb5b42c7c01a6f7d9b87807d3087726fe989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 35/95] fix: updating the fields of an atom reaches both atoms
 and wins over the user's setting

The new field was stored under a key shared by both atoms, so that the second
atom looked as if it was up to date already, and a field given specifically for
the atom shadowed the new one. A field given as tuple or array was always
considered to have changed.
---
 pairinteraction_gui/pipy/atom.py   | 4 ++--
 pairinteraction_gui/pipy/config.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 7b38c45..eeef1ca 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -397,10 +397,10 @@ class AtomOne(Atom):
             self.energies, self.overlaps, self.vectors = None, None, None
 
             if update["Efield"]:
-                config.setEfield(Efield, "")
+                config.setEfield(Efield, getattr(config, "iAtom", 1))
                 self.system.setEfield(config.Efield())
             if update["Bfield"]:
-                config.setBfield(Bfield, "")
+                config.setBfield(Bfield, getattr(config, "iAtom", 1))
                 self.system.setBfield(config.Bfield())
 
             return True
diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index 33b6547..206a7f8 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -137,7 +137,7 @@ class Config:
 
     def Efield(self, part=None) -> "list[float]":
         """Electric field vector."""
-        return self._getSingle("Efield", part, [self._getSingle("E" + x, part, 0) for x in "xyz"])
+        return list(self._getSingle("Efield", part, [self._getSingle("E" + x, part, 0) for x in "xyz"]))
 
     def Ex(self, part=None) -> float:
         """Electric field in x direction."""
@@ -153,7 +153,7 @@ class Config:
 
     def Bfield(self, part=None) -> "list[float]":
         """Magnetic field vector."""
-        return self._getSingle("Bfield", part, [self._getSingle("B" + x, part, 0) for x in "xyz"])
+        return list(self._getSingle("Bfield", part, [self._getSingle("B" + x, part, 0) for x in "xyz"]))
 
     def Bx(self, part=None) -> float:
         """Magnetic field in x direction."""
-- 
2.43.0


From cdedf397a33faf03672e2e7c52880999b0372c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 36/95] fix: a copy of the second atom was a copy of the first
 one

The copies of a configuration forgot which atom they belong to.
---
 pairinteraction_gui/pipy/config.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index 206a7f8..dbafd39 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -108,11 +108,19 @@ class Config:
         """Just copy the Config object, but keeping the underlying user dictionary the same.
         This is useful to keep record of the original user dictionary.
         """
-        return Config(self._dic)
+        return self._copyWith(self._dic)
 
     def deepCopy(self) -> "Config":
         """Copy the Config object and also copy the underlying user dictionary."""
-        return Config(self._dic.copy())
+        return self._copyWith(self._dic.copy())
+
+    def _copyWith(self, dic) -> "Config":
+        """Create a Config object for the given dictionary, which refers to the same atom as this one."""
+        new = Config(dic)
+        for k in ["force_nAtoms", "iAtom"]:
+            if hasattr(self, k):
+                setattr(new, k, getattr(self, k))
+        return new
 
     # Single atom parameters
     def _getSingle(self, key, part, default=InvalidKey):
-- 
2.43.0


From 86fa7c24b84bb4bb3984d39d3a4155ec9b42c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 37/95] fix: CustomDict.as_dict_recursive called a method that
 does not exist

---
 pairinteraction_gui/pipy/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/misc.py b/pairinteraction_gui/pipy/misc.py
index e24acb6..72a9b1b 100755
--- a/pairinteraction_gui/pipy/misc.py
+++ b/pairinteraction_gui/pipy/misc.py
@@ -59,7 +59,7 @@ class CustomDict(MutableMapping):
         return type(self)(self.store, unused=self.unused, name=self.name, recursive=False)
 
     def as_dict_recursive(self):
-        return {k: v.as_dict() if isinstance(v, type(self)) else v for k, v in self.items()}
+        return {k: v.as_dict_recursive() if isinstance(v, type(self)) else v for k, v in self.items()}
 
     def get_unused_recursive(self):
         unused = self.unused.copy()
-- 
2.43.0


From ce3dd318a9ab4624a003cd567f2f23f58a912b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 38/95] fix: identify calculations by all settings that matter,
 regardless of earlier queries

The hash, which names the files with cached results, contained the energies of
the states of interest only if something else had asked for them before, and
otherwise nothing that tells the states apart, although the cached energies are
relative to them. Momenta were reported also if they are not to be conserved.
---
 pairinteraction_gui/pipy/config.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index dbafd39..eaac1db 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -98,8 +98,19 @@ class Config:
         return output
 
     def toHash(self) -> str:
-        """Return a hash of the toOutDict."""
-        pairs = sorted((k, v) for k, v in self.toOutDict().items())
+        """Return a hash of the toOutDict.
+
+        The quantum numbers are part of the hash instead of the energies, which are only known if they were
+        already needed.
+        """
+        dic = {k: v for k, v in self.toOutDict().items() if not k.endswith("._energies")}
+        parts = [None] if self.nAtoms() == 1 else [1, "pair"] if self.useSameAtom() else [1, 2, "pair"]
+        for part in parts:
+            try:
+                dic[f"{part}._qnumbers"] = self.qnumbersSingle() if part is None else self.qnumbers(part)
+            except ValueError:  # no quantum numbers given
+                dic[f"{part}._qnumbers"] = None
+        pairs = sorted((k, v) for k, v in dic.items())
         h = blake2b(digest_size=10)
         h.update(str(pairs).encode("utf-8"))
         return h.hexdigest()
@@ -241,7 +252,7 @@ class Config:
         """Get a dictionary with all the output parameters for one AtomOne."""
         output = {
             "species": self.species(part),
-            "momenta": self.momentaSingle(part),
+            "momenta": self.momentaSingle(part) if self.conserveMomentaSingle(part) else None,
         }
         output["_energies"] = getattr(self, f"_energiesSingle{part}", None)
         for Q in ["Energy", "N", "L", "J", "M"]:
@@ -393,7 +404,7 @@ class Config:
         output = {
             "order": self.order(),
             "minimalNorm": self.minimalNorm(),
-            "momenta": self.momentaPair(),
+            "momenta": self.momentaPair() if self.conserveMomentaPair() else None,
             "angle": self.angle(),
             "distance": self.distance(),
         }
-- 
2.43.0


From c588e64096fc6f6560707d8a1890bb488a7d5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 39/95] fix: the atoms of a copied AtomTwo no longer shared
 their settings with it

---
 pairinteraction_gui/pipy/atom.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index eeef1ca..91d57a2 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -458,17 +458,23 @@ class AtomTwo(Atom):
         new = AtomTwo(config)
         if self._atom1 is not None:
             new._atom1 = self.atom1.copy()
+            new._atom1.config = new._createAtomConfig(1)
         if self._atom2 is not None and not self.config.useSameAtom():
             new._atom2 = self.atom2.copy()
+            new._atom2.config = new._createAtomConfig(2)
         new._system = self.copySystem()
         return new
 
-    def _createAtom(self, iAtom):
-        """Creating the AtomOne objects for atom 1 or 2."""
+    def _createAtomConfig(self, iAtom):
+        """Creating the config of atom 1 or 2, which shares the user dictionary with the config of the AtomTwo."""
         config = self.config.shallowCopy()
         config.force_nAtoms = 1
         config.iAtom = iAtom
-        atom = AtomOne(config)
+        return config
+
+    def _createAtom(self, iAtom):
+        """Creating the AtomOne objects for atom 1 or 2."""
+        atom = AtomOne(self._createAtomConfig(iAtom))
         setattr(self, f"_atom{iAtom}", atom)
 
     def _createSystem(self):
-- 
2.43.0


From 38fb2eab905fd3a077ef09bb9894ab38a3e2eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 40/95] fix: copies of an atom use the same energies to
 restrict their basis

---
 pairinteraction_gui/pipy/atom.py   | 3 ++-
 pairinteraction_gui/pipy/config.py | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 91d57a2..2c6cf5e 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -454,6 +454,7 @@ class AtomTwo(Atom):
         """Returning a copy of the AtomTwo without any energies, overlaps or basisStates.
         Basically a copy of the config, the system and the atoms.
         """
+        system = self.copySystem()  # builds the system if necessary
         config = self.config.deepCopy()
         new = AtomTwo(config)
         if self._atom1 is not None:
@@ -462,7 +463,7 @@ class AtomTwo(Atom):
         if self._atom2 is not None and not self.config.useSameAtom():
             new._atom2 = self.atom2.copy()
             new._atom2.config = new._createAtomConfig(2)
-        new._system = self.copySystem()
+        new._system = system
         return new
 
     def _createAtomConfig(self, iAtom):
diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index eaac1db..e8d4766 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -126,9 +126,12 @@ class Config:
         return self._copyWith(self._dic.copy())
 
     def _copyWith(self, dic) -> "Config":
-        """Create a Config object for the given dictionary, which refers to the same atom as this one."""
+        """Create a Config object for the given dictionary, which refers to the same atom as this one.
+
+        The energies defining the restrictions are kept, such that the copy will use the same basis.
+        """
         new = Config(dic)
-        for k in ["force_nAtoms", "iAtom"]:
+        for k in ["force_nAtoms", "iAtom", "_energiesSingle1", "_energiesSingle2", "_energiesPair"]:
             if hasattr(self, k):
                 setattr(new, k, getattr(self, k))
         return new
-- 
2.43.0


From e7740c117b9db6d9c7c9f46ddd223d48adf2caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 41/95] fix: pairs with a complex field at one atom only mixed
 real and complex systems

---
 pairinteraction_gui/pipy/atom.py   | 1 +
 pairinteraction_gui/pipy/config.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 2c6cf5e..a642296 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -470,6 +470,7 @@ class AtomTwo(Atom):
         """Creating the config of atom 1 or 2, which shares the user dictionary with the config of the AtomTwo."""
         config = self.config.shallowCopy()
         config.force_nAtoms = 1
+        config.force_isReal = self.config.isReal()  # a SystemTwo needs SystemOnes of its own data type
         config.iAtom = iAtom
         return config
 
diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index e8d4766..8b6f17a 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -54,6 +54,8 @@ class Config:
 
     def isReal(self) -> bool:
         """Defines if we use pireal or picomplex."""
+        if getattr(self, "force_isReal", None) is not None:
+            return self.force_isReal
         if self.nAtoms() == 1:
             return self.isRealSingle(None)
         else:  # self.nAtoms() == 2
@@ -131,7 +133,7 @@ class Config:
         The energies defining the restrictions are kept, such that the copy will use the same basis.
         """
         new = Config(dic)
-        for k in ["force_nAtoms", "iAtom", "_energiesSingle1", "_energiesSingle2", "_energiesPair"]:
+        for k in ["force_nAtoms", "force_isReal", "iAtom", "_energiesSingle1", "_energiesSingle2", "_energiesPair"]:
             if hasattr(self, k):
                 setattr(new, k, getattr(self, k))
         return new
-- 
2.43.0


From ec2aedd338b603612f8e9355097d783c5288b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 42/95] fix: appended sparse matrices kept cached format
 properties of the first part

---
 pairinteraction_gui/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pairinteraction_gui/utils.py b/pairinteraction_gui/utils.py
index 409d142..e3ac758 100644
--- a/pairinteraction_gui/utils.py
+++ b/pairinteraction_gui/utils.py
@@ -167,6 +167,7 @@ def csr_vappend(a, b):
     a.indices = np.hstack((a.indices, b.indices))
     a.indptr = np.hstack((a.indptr, (b.indptr + a.nnz)[1:]))
     a._shape = (a.shape[0] + b.shape[0], b.shape[1])
+    a.has_canonical_format, a.has_sorted_indices = False, False  # scipy might have cached these properties
 
 
 # === Append csc matrices ===
@@ -182,6 +183,7 @@ def csc_happend(a, b):
     a.indices = np.hstack((a.indices, b.indices))
     a.indptr = np.hstack((a.indptr, (b.indptr + a.nnz)[1:]))
     a._shape = (b.shape[0], a.shape[1] + b.shape[1])
+    a.has_canonical_format, a.has_sorted_indices = False, False  # scipy might have cached these properties
 
 
 # === Keep only the values that are maximal within a row of a csr matrix ===
-- 
2.43.0


From 73c78a14e629417e20aaf3b5b939f935ecb930bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:46 +0000
Subject: [PATCH 43/95] fix: interrupted or damaged rotation matrix caches made
 every later calculation fail

---
 pairinteraction_gui/utils.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pairinteraction_gui/utils.py b/pairinteraction_gui/utils.py
index e3ac758..47ed8fd 100644
--- a/pairinteraction_gui/utils.py
+++ b/pairinteraction_gui/utils.py
@@ -36,9 +36,24 @@ class Wignerd:
             if not self.cachupdatedict[k]:
                 continue
             path = os.path.join(self.cachedir, k)
-            with open(path, "wb") as f:
+            # replace the file at once, such that it is complete even if saving gets interrupted
+            path_tmp = f"{path}.{os.getpid()}.tmp"
+            with open(path_tmp, "wb") as f:
                 pickle.dump(v, f, pickle.HIGHEST_PROTOCOL)
-                self.cachupdatedict[k] = False
+            os.replace(path_tmp, path)
+            self.cachupdatedict[k] = False
+
+    @staticmethod
+    def _load(path):
+        if os.path.exists(path):
+            try:
+                with open(path, "rb") as f:
+                    content = pickle.load(f)
+                if isinstance(content, dict):
+                    return content
+            except Exception as e:  # the exception type depends on how the file is damaged
+                print(f"WARNING: Ignoring unreadable cache {path}: {e}")
+        return {}
 
     def calc(self, j, m2, m1, beta):
         sgn = 1
@@ -54,12 +69,7 @@ class Wignerd:
 
         bstring = f"{int(np.round(beta * 1e9)):+013d}.pkl"
         if bstring not in self.wignerdict.keys():
-            path = os.path.join(self.cachedir, bstring)
-            if os.path.exists(path):
-                with open(path, "rb") as f:
-                    self.wignerdict[bstring] = pickle.load(f)
-            else:
-                self.wignerdict[bstring] = {}
+            self.wignerdict[bstring] = self._load(os.path.join(self.cachedir, bstring))
             self.cachupdatedict[bstring] = False
 
         mstring = f"{j}_{m1}_{m2}"
-- 
2.43.0


From 37128560dc335c3bd89ac0865581f7d05247c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 44/95] fix: an error message of the backend stopped the reader
 instead of being shown

---
 pairinteraction_gui/worker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/worker.py b/pairinteraction_gui/worker.py
index 1a62e91..eb022d0 100644
--- a/pairinteraction_gui/worker.py
+++ b/pairinteraction_gui/worker.py
@@ -31,6 +31,7 @@ class Worker(QThread):
     def __init__(self, all_queues, parent=None):
         super().__init__(parent)
         self.all_queues = all_queues
+        self.all_queues.error_handler = self.criticalsignal.emit
         self.exiting = False
 
     def __del__(self):
@@ -60,6 +61,7 @@ class Worker(QThread):
 class AllQueues:
     def __init__(self):
         self.dataqueues = [Queue(), Queue(), Queue()]  # field1, field2, potential
+        self.error_handler = None  # function that gets called with the error messages
         self.clear()
 
     def clear(self):
@@ -123,7 +125,10 @@ class AllQueues:
             self.dataqueues[self._type % 3].put([filestep, blocks, blocknumber, filename])
 
         elif line[:5] == ">>ERR":
-            self.criticalsignal.emit(line[5:].strip())
+            if self.error_handler is not None:
+                self.error_handler(line[5:].strip())
+            else:
+                print(line, end="")
 
         elif line[:5] == ">>END":
             self.finishedgracefully = True
-- 
2.43.0


From 58b196f54c11f9c7d3707dd84415190733102f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 45/95] fix: output that is not valid UTF-8 or not printable
 stopped the reader

---
 pairinteraction_gui/worker.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pairinteraction_gui/worker.py b/pairinteraction_gui/worker.py
index eb022d0..1dac398 100644
--- a/pairinteraction_gui/worker.py
+++ b/pairinteraction_gui/worker.py
@@ -14,6 +14,7 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with the pairinteraction GUI. If not, see <http://www.gnu.org/licenses/>.
+import sys
 from queue import Queue
 
 # FIXME once we assume PyQt5.version >= 5.15, we can remove the except
@@ -82,7 +83,7 @@ class AllQueues:
 
     def processOneLine(self, line):
         if isinstance(line, bytes):
-            line = line.decode("utf-8")
+            line = line.decode("utf-8", errors="surrogateescape")  # as for filenames
 
         if line[:5] == ">>TYP":
             self._type = int(line[5:12])
@@ -128,12 +129,20 @@ class AllQueues:
             if self.error_handler is not None:
                 self.error_handler(line[5:].strip())
             else:
-                print(line, end="")
+                self.printText(line)
 
         elif line[:5] == ">>END":
             self.finishedgracefully = True
 
         else:
-            print(line, end="")
+            self.printText(line)
 
         self.message = self.status_type + self.status_progress
+
+    @staticmethod
+    def printText(text):
+        try:
+            print(text, end="")
+        except UnicodeEncodeError:
+            encoding = sys.stdout.encoding or "ascii"
+            print(text.encode(encoding, "replace").decode(encoding), end="")
-- 
2.43.0


From 0fd6809820db563239d01e63d7b9e509cc8a6982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 46/95] fix: file names in an unterminated last line lost a
 character

---
 pairinteraction_gui/worker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/worker.py b/pairinteraction_gui/worker.py
index 1dac398..62984e2 100644
--- a/pairinteraction_gui/worker.py
+++ b/pairinteraction_gui/worker.py
@@ -100,7 +100,7 @@ class AllQueues:
             self.status_progress = f"construct matrices using {basissize} basis vectors"
 
         elif line[:5] == ">>STA":
-            filename = line[6:-1].strip()
+            filename = line[6:].strip()
             self.basisfiles[self._type % 3].append(filename)
 
         elif line[:5] == ">>TOT":
@@ -122,7 +122,7 @@ class AllQueues:
             filestep = int(line[12:19])
             blocks = int(line[19:26])
             blocknumber = int(line[26:33])
-            filename = line[34:-1].strip()
+            filename = line[34:].strip()
             self.dataqueues[self._type % 3].put([filestep, blocks, blocknumber, filename])
 
         elif line[:5] == ">>ERR":
-- 
2.43.0


From afe13d6d6867cc50a0cfb51443d93dc28dff48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 47/95] fix: restricting j must not add states violating the
 triangle inequality (l=0, j=0 for triplets)

---
 pairinteraction/SystemOne.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 649a4af..2bbbb6f 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -219,7 +219,7 @@ void SystemOne<Scalar>::initializeBasis() {
                 range_adapted_j = this->range_j;
             }
             for (auto j : range_adapted_j) {
-                if (std::fabs(j - l) > s || j < 0) {
+                if (j < std::fabs(l - s) || j > l + s) {
                     continue;
                 }
 
-- 
2.43.0


From e1c9f65b6234e491db3b5073caee10e3e8c0d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 48/95] fix: axes that are orthogonal up to rounding must not
 be refused

---
 pairinteraction/SystemBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 47b39bf..f6b510b 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1508,7 +1508,7 @@ SystemBase<Scalar, State>::buildRotator(std::array<double, 3> to_z_axis,
     auto to_z_axis_mapped = Eigen::Map<Eigen::Matrix<double, 3, 1>>(&to_z_axis[0]).normalized();
     auto to_y_axis_mapped = Eigen::Map<Eigen::Matrix<double, 3, 1>>(&to_y_axis[0]).normalized();
 
-    double tolerance = 1e-16;
+    double tolerance = 1e-12; // allows for rounding errors
     if (std::abs(to_z_axis_mapped.dot(to_y_axis_mapped)) > tolerance) {
         throw std::runtime_error("The z-axis and the y-axis are not orhogonal.");
     }
-- 
2.43.0


From 26556ca380dad4e44c0e1c07ed8c142740a08d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 49/95] fix: sign of odd multipole orders for pairs pointing
 along -z

---
 pairinteraction/SystemTwo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 87849be..d7e8db6 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1358,6 +1358,9 @@ void SystemTwo<Scalar>::addInteraction() {
     } else {
         for (unsigned int order = 3; order <= ordermax; ++order) {
             double powerlaw = 1. / std::pow(distance, order);
+            if (distance_z < 0 && order % 2 == 0) {
+                powerlaw *= -1; // the multipole moments of the order have odd parity
+            }
             this->hamiltonian += interaction_multipole[order] * powerlaw;
         }
     }
-- 
2.43.0


From 6f7c9b7c8c796e870061734af330e05697a4b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 50/95] fix: direction of the pair vector in the Green tensor
 formulation with a surface

The Green tensor is formulated for the displacement of the first atom from the
second one, while the distance vector of the system points from the first to
the second atom. In vacuum both choices agree up to the sign of the
dipole-quadrupole terms, close to a surface the xz and zx elements of the
dipole-dipole interaction differed from the interaction of the given geometry.
---
 pairinteraction/SystemTwo.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index d7e8db6..0f590b1 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -694,8 +694,9 @@ void SystemTwo<Scalar>::initializeInteraction() {
             throw std::runtime_error("The atoms must be in the xz-plane if a surface is present");
         }
 
-        // Calculate Green tensor
-        GreenTensor GT(distance_x, distance_y, distance_z);
+        // Calculate Green tensor (for which the first atom is displaced by the passed vector from
+        // the second atom, while the distance vector points from the first to the second atom)
+        GreenTensor GT(-distance_x, -distance_y, -distance_z);
         if (surface_distance != std::numeric_limits<double>::max()) {
             GT.addSurface(surface_distance);
         }
@@ -1052,7 +1053,7 @@ void SystemTwo<Scalar>::initializeInteraction() {
                         }
                         if (std::abs(vec_entry * matrix_entry) > tolerance) {
                             Scalar val =
-                                coulombs_constant * vec_entry * matrix_entry / std::sqrt(30.);
+                                -coulombs_constant * vec_entry * matrix_entry / std::sqrt(30.);
                             if ((i1 == 1) && (i2 != i3 && (i2 == 1 || i3 == 1))) {
                                 val *= -1.; // from i^2
                             }
@@ -1195,7 +1196,7 @@ void SystemTwo<Scalar>::initializeInteraction() {
                         }
                         if (std::abs(vec_entry * matrix_entry) > tolerance) {
                             Scalar val =
-                                coulombs_constant * vec_entry * matrix_entry / std::sqrt(30.);
+                                -coulombs_constant * vec_entry * matrix_entry / std::sqrt(30.);
                             if ((i3 == 1) && (i1 != i2 && (i1 == 1 || i2 == 1))) {
                                 val *= -1.; // from i^2
                             }
-- 
2.43.0


From 4483395e2c642c23bcda68f566d33a213db844c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 51/95] fix: angular dipole-dipole interaction was included for
 orders below 3

With a distance vector that is not parallel to the z-axis, the dipole-dipole interaction was
added whatever order was set, and orders 0 and 1 led to an endless loop because of an
unsigned underflow of the multipole order.
---
 pairinteraction/SystemTwo.cpp | 48 ++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 0f590b1..04f6010 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -746,29 +746,31 @@ void SystemTwo<Scalar>::initializeInteraction() {
         double angle = std::atan2(distance_x, distance_z);
 
         // Calculate angle terms
-        double val = 1. - 3. * std::pow(std::cos(angle), 2); // 0,0
-        if (std::abs(val) > tolerance) {
-            angle_terms[3 * (0 + 1) + (0 + 1)] = val;
-        }
-        val = -1. + 1.5 * std::pow(std::sin(angle), 2); // 1,-1; -1,1
-        if (std::abs(val) > tolerance) {
-            angle_terms[3 * (-1 + 1) + (1 + 1)] = val;
-        }
-        val = 3. / std::sqrt(2) * std::sin(angle) * std::cos(angle); // 1,0; 0,1
-        if (std::abs(val) > tolerance) {
-            angle_terms[3 * (0 + 1) + (1 + 1)] = val;
-        }
-        val = -3. / std::sqrt(2) * std::sin(angle) * std::cos(angle); // -1,0; 0,-1
-        if (std::abs(val) > tolerance) {
-            angle_terms[3 * (-1 + 1) + (0 + 1)] = val;
-        }
-        val = -1.5 * std::pow(std::sin(angle), 2); // 1,1
-        if (std::abs(val) > tolerance) {
-            angle_terms[3 * (1 + 1) + (1 + 1)] = val;
-        }
-        val = -1.5 * std::pow(std::sin(angle), 2); // -1,-1
-        if (std::abs(val) > tolerance) {
-            angle_terms[3 * (-1 + 1) + (-1 + 1)] = val;
+        if (ordermax >= 3) {
+            double val = 1. - 3. * std::pow(std::cos(angle), 2); // 0,0
+            if (std::abs(val) > tolerance) {
+                angle_terms[3 * (0 + 1) + (0 + 1)] = val;
+            }
+            val = -1. + 1.5 * std::pow(std::sin(angle), 2); // 1,-1; -1,1
+            if (std::abs(val) > tolerance) {
+                angle_terms[3 * (-1 + 1) + (1 + 1)] = val;
+            }
+            val = 3. / std::sqrt(2) * std::sin(angle) * std::cos(angle); // 1,0; 0,1
+            if (std::abs(val) > tolerance) {
+                angle_terms[3 * (0 + 1) + (1 + 1)] = val;
+            }
+            val = -3. / std::sqrt(2) * std::sin(angle) * std::cos(angle); // -1,0; 0,-1
+            if (std::abs(val) > tolerance) {
+                angle_terms[3 * (-1 + 1) + (0 + 1)] = val;
+            }
+            val = -1.5 * std::pow(std::sin(angle), 2); // 1,1
+            if (std::abs(val) > tolerance) {
+                angle_terms[3 * (1 + 1) + (1 + 1)] = val;
+            }
+            val = -1.5 * std::pow(std::sin(angle), 2); // -1,-1
+            if (std::abs(val) > tolerance) {
+                angle_terms[3 * (-1 + 1) + (-1 + 1)] = val;
+            }
         }
 
         // Determine which interaction matrices have to be calculated
-- 
2.43.0


From b1431bb10f18065afb2262e951b015e9174fc2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 52/95] fix: complex entries of the Hamiltonian were read as
 their conjugates

The scalar product conjugates its first argument, so getHamiltonianEntry returned the entry
of the transposed basis and setHamiltonianEntry did not set the requested value.
---
 pairinteraction/SystemBase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index f6b510b..07e447a 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1247,7 +1247,8 @@ Scalar SystemBase<Scalar, State>::getHamiltonianEntry(const State &state_row,
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    return (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    // Note that dot() conjugates the entries of the object on which it is called
+    return basisvectors.row(idx_col).dot(basisvectors.row(idx_row) * hamiltonian);
 }
 
 template <class Scalar, class State>
@@ -1258,7 +1259,7 @@ void SystemBase<Scalar, State>::setHamiltonianEntry(const State &state_row, cons
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    value -= (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    value -= basisvectors.row(idx_col).dot(basisvectors.row(idx_row) * hamiltonian);
 
     Eigen::SparseMatrix<Scalar> tmp(states.size(), states.size());
     tmp.reserve(2);
-- 
2.43.0


From d7d594953ab247ac483ecf664660665a6f854732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 53/95] fix: keep track of the current basis when a transformed
 system is changed afterwards

After diagonalize() or canonicalize(), basis vectors were selected (constrainBasisvectors,
restrictions, applySchriefferWolffTransformation) in the current basis, but the same
transformation was applied to the unperturbed basis vectors, the unperturbed Hamiltonian and
the interaction matrices, which are still given in the original basis. A later change of a
parameter thus led to a Hamiltonian for the wrong subspace, or to matrices of inconsistent
sizes. rotate() and buildInteraction() mixed up both bases, too. Changing a parameter now
also discards results that were derived from the previous value, and add() checks its
arguments before it changes anything.
---
 pairinteraction/SystemBase.cpp | 170 ++++++++++++++++++++++++---------
 pairinteraction/SystemBase.hpp |  14 ++-
 2 files changed, 140 insertions(+), 44 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 07e447a..f197ef5 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -487,13 +487,13 @@ void SystemBase<Scalar, State>::buildHamiltonian() {
             }
 
             // Reset the Hamiltonian if it already contains the interaction
-            basisvectors = basisvectors_unperturbed_cache;
-            hamiltonian = hamiltonian_unperturbed_cache;
+            this->resetToUnperturbed();
         } else if (!memory_saving) {
 
             // Store the Hamiltonian without interaction
             basisvectors_unperturbed_cache = basisvectors;
             hamiltonian_unperturbed_cache = hamiltonian;
+            transformator_unperturbed_cache.resize(0, 0);
         }
 
         // Build interaction
@@ -517,6 +517,11 @@ void SystemBase<Scalar, State>::buildInteraction() {
     // Build basis
     this->buildBasis();
 
+    // In case of an up to date Hamiltonian, the interaction is already initialized
+    if (is_interaction_already_contained && !is_new_hamiltonian_required) {
+        return;
+    }
+
     // Initialize interaction
     this->initializeInteraction(); // this method checks by itself whether a new initialization
                                    // is required
@@ -670,6 +675,7 @@ void SystemBase<Scalar, State>::diagonalize(double energy_lower_bound, double en
         // Transform the basis vectors
         Eigen::SparseMatrix<Scalar> evecs =
             Eigen::Map<Eigen::MatrixX<Scalar>>(&x[0], n, m).sparseView();
+        this->onBasisChange(evecs);
         if (threshold == 0) {
             basisvectors = basisvectors * evecs;
         } else {
@@ -736,13 +742,13 @@ void SystemBase<Scalar, State>::diagonalize(double threshold) {
     hamiltonian.makeCompressed();
 
     // Transform the basis vectors
+    this->onBasisChange(evecs);
     if (threshold == 0) {
         basisvectors = basisvectors * evecs;
     } else {
         basisvectors = (basisvectors * evecs).pruned(threshold, 1);
     }
 
-    // TODO call transformInteraction (see applyRightsideTransformator), perhaps not?
 }
 
 template <class Scalar, class State>
@@ -753,9 +759,9 @@ void SystemBase<Scalar, State>::canonicalize() {
     hamiltonian = basisvectors * hamiltonian * basisvectors.adjoint();
 
     // Transform the basis vectors
-    basisvectors = basisvectors * basisvectors.adjoint();
-
-    // TODO call transformInteraction (see applyRightsideTransformator), perhaps yes?
+    Eigen::SparseMatrix<Scalar> transformator = basisvectors.adjoint();
+    this->onBasisChange(transformator);
+    basisvectors = basisvectors * transformator;
 }
 
 template <class Scalar, class State>
@@ -802,6 +808,11 @@ void SystemBase<Scalar, State>::unitarize() {
     // Delete caches as they are no longer meaningful
     basisvectors_unperturbed_cache.resize(0, 0);
     hamiltonian_unperturbed_cache.resize(0, 0);
+    transformator_unperturbed_cache.resize(0, 0);
+    this->deleteInteraction();
+
+    // The new states have lost their physical meaning so that no interaction can be added anymore
+    is_interaction_already_contained = true;
 }
 
 template <class Scalar, class State>
@@ -821,14 +832,13 @@ void SystemBase<Scalar, State>::rotate(double alpha, double beta,
     Eigen::SparseMatrix<Scalar> transformator = this->buildStaterotator(alpha, beta, gamma);
 
     // Rotate basis
-    this->transformInteraction(basisvectors.adjoint());
-
     basisvectors = transformator * basisvectors;
     if (basisvectors_unperturbed_cache.size() != 0) {
         basisvectors_unperturbed_cache = transformator * basisvectors_unperturbed_cache;
     }
 
-    this->transformInteraction(basisvectors);
+    // Delete the interaction, it is rebuilt for the rotated basis if it is required again
+    this->deleteInteraction();
 }
 
 template <class Scalar, class State>
@@ -840,10 +850,7 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     size_t size_this = basisvectors.cols();
     size_t size_other = system.basisvectors.cols();
 
-    // --- Combine system specific variables ---
-    this->incorporate(system);
-
-    // --- Combine universal variables ---
+    // --- Check whether the systems can be combined ---
     if (memory_saving != system.memory_saving) {
         throw std::runtime_error(
             "The value of the variable 'memory_saving' must be the same for both systems.");
@@ -857,6 +864,39 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
             "The value of the variable 'is_new_hamiltonian_required' must be the same "
             "for both systems.");
     }
+    if (((basisvectors_unperturbed_cache.size() != 0) !=
+         (system.basisvectors_unperturbed_cache.size() != 0)) ||
+        ((hamiltonian_unperturbed_cache.size() != 0) !=
+         (system.hamiltonian_unperturbed_cache.size() != 0))) {
+        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
+                                 std::to_string(__LINE__) + ".");
+    }
+
+    // Check if basis vectors are orthogonal
+    {
+        std::vector<Eigen::Triplet<Scalar>> triplets_common;
+        triplets_common.reserve(system.states.size());
+
+        for (const auto &entry : system.states) {
+            auto state_iter = states.template get<1>().find(entry.state);
+            if (state_iter != states.template get<1>().end()) {
+                triplets_common.emplace_back(state_iter->idx, entry.idx, 1);
+            }
+        }
+
+        Eigen::SparseMatrix<Scalar> common(states.size(), system.states.size());
+        common.setFromTriplets(triplets_common.begin(), triplets_common.end());
+
+        Eigen::SparseMatrix<Scalar> overlap = basisvectors.adjoint() * common * system.basisvectors;
+        overlap.prune(1e-12, 1);
+        if (overlap.nonZeros() != 0) {
+            throw std::runtime_error(
+                "Two systems cannot be combined if their basis vectors are not orthogonal.");
+        }
+    }
+
+    // --- Combine system specific variables ---
+    this->incorporate(system);
 
     // --- Combine states and build transformators ---
     Eigen::SparseMatrix<Scalar> transformator;
@@ -885,13 +925,36 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     basisvectors.conservativeResize(states.size(), size_this + size_other);
     basisvectors.rightCols(size_other) = transformator * system.basisvectors;
 
-    if ((basisvectors_unperturbed_cache.size() != 0) !=
-        (system.basisvectors_unperturbed_cache.size() != 0)) {
-        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
-                                 std::to_string(__LINE__) + ".");
-    }
-
     if (basisvectors_unperturbed_cache.size() != 0) {
+        // Combine the transformations that lead to the current basis vectors
+        if (transformator_unperturbed_cache.size() != 0 ||
+            system.transformator_unperturbed_cache.size() != 0) {
+            std::vector<Eigen::Triplet<Scalar>> triplets_combined;
+            auto append = [&triplets_combined](const SystemBase<Scalar, State> &s,
+                                               Eigen::Index offset_row, Eigen::Index offset_col) {
+                const auto &t = s.transformator_unperturbed_cache;
+                if (t.size() == 0) {
+                    for (Eigen::Index k = 0; k < s.basisvectors_unperturbed_cache.cols(); ++k) {
+                        triplets_combined.emplace_back(k + offset_row, k + offset_col, 1);
+                    }
+                }
+                for (int k = 0; k < t.outerSize(); ++k) {
+                    for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(t, k); triple;
+                         ++triple) {
+                        triplets_combined.emplace_back(triple.row() + offset_row,
+                                                       triple.col() + offset_col, triple.value());
+                    }
+                }
+            };
+            append(*this, 0, 0);
+            append(system, basisvectors_unperturbed_cache.cols(), size_this);
+            transformator_unperturbed_cache.resize(basisvectors_unperturbed_cache.cols() +
+                                                       system.basisvectors_unperturbed_cache.cols(),
+                                                   size_this + size_other);
+            transformator_unperturbed_cache.setFromTriplets(triplets_combined.begin(),
+                                                            triplets_combined.end());
+        }
+
         basisvectors_unperturbed_cache.conservativeResize(
             states.size(),
             basisvectors_unperturbed_cache.cols() + system.basisvectors_unperturbed_cache.cols());
@@ -899,15 +962,6 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
             transformator * system.basisvectors_unperturbed_cache;
     }
 
-    // --- Check if basis vectors are orthogonal ---
-    Eigen::SparseMatrix<Scalar> tmp =
-        (basisvectors.leftCols(size_this).adjoint() * basisvectors.rightCols(size_other))
-            .pruned(1e-12, 1);
-    if (tmp.nonZeros() != 0) {
-        throw std::runtime_error(
-            "Two systems cannot be combined if their basis vectors are not orthogonal.");
-    }
-
     // --- Combine hamiltonian and hamiltonian_unperturbed_cache ---
     Eigen::SparseMatrix<Scalar> shifter(hamiltonian.rows() + system.hamiltonian.rows(),
                                         system.hamiltonian.rows());
@@ -926,12 +980,6 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
                                    hamiltonian.cols() + system.hamiltonian.cols());
     hamiltonian.rightCols(system.hamiltonian.cols()) = shifter * system.hamiltonian;
 
-    if ((hamiltonian_unperturbed_cache.size() != 0) !=
-        (system.hamiltonian_unperturbed_cache.size() != 0)) {
-        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
-                                 std::to_string(__LINE__) + ".");
-    }
-
     if (hamiltonian_unperturbed_cache.size() != 0) {
         hamiltonian_unperturbed_cache.conservativeResize(
             hamiltonian_unperturbed_cache.rows() + system.hamiltonian_unperturbed_cache.rows(),
@@ -1237,6 +1285,9 @@ void SystemBase<Scalar, State>::forgetStatemixing() {
     }
 
     basisvectors.setFromTriplets(basisvectors_triplets.begin(), basisvectors_triplets.end());
+    if (basisvectors_unperturbed_cache.size() != 0) {
+        transformator_unperturbed_cache = basisvectors_unperturbed_cache.adjoint() * basisvectors;
+    }
 }
 
 template <class Scalar, class State>
@@ -1326,6 +1377,11 @@ void SystemBase<Scalar, State>::onParameterChange() {
             "parameters after interaction was added to the Hamiltonian.");
     }
 
+    // Forget everything that has been derived from the previous values of the parameters
+    if (is_interaction_already_contained) {
+        this->resetToUnperturbed();
+    }
+
     is_new_hamiltonian_required = true;
 }
 
@@ -1337,6 +1393,28 @@ void SystemBase<Scalar, State>::onSymmetryChange() {
     }
 }
 
+////////////////////////////////////////////////////////////////////
+/// Helper methods to relate the basis to the unperturbed one //////
+////////////////////////////////////////////////////////////////////
+
+template <class Scalar, class State>
+void SystemBase<Scalar, State>::onBasisChange(const Eigen::SparseMatrix<Scalar> &transformator) {
+    if (basisvectors_unperturbed_cache.size() == 0) {
+        this->transformInteraction(transformator);
+    } else if (transformator_unperturbed_cache.size() == 0) {
+        transformator_unperturbed_cache = transformator;
+    } else {
+        transformator_unperturbed_cache = transformator_unperturbed_cache * transformator;
+    }
+}
+
+template <class Scalar, class State>
+void SystemBase<Scalar, State>::resetToUnperturbed() {
+    basisvectors = basisvectors_unperturbed_cache;
+    hamiltonian = hamiltonian_unperturbed_cache;
+    transformator_unperturbed_cache.resize(0, 0);
+}
+
 ////////////////////////////////////////////////////////////////////
 /// Helper methods to check diagonality and unitarity of a matrix //
 ////////////////////////////////////////////////////////////////////
@@ -1457,19 +1535,25 @@ void SystemBase<Scalar, State>::applyRightsideTransformator(
     // Apply transformator in order to remove columns from the basisvector matrix (i.e. basis
     // vectors)
     basisvectors = basisvectors * transformator;
-    if (basisvectors_unperturbed_cache.size() != 0) {
-        basisvectors_unperturbed_cache = basisvectors_unperturbed_cache * transformator;
-    }
-
-    // Apply transformator in order to remove rows and columns from the matrices that help
-    // constructing the total Hamiltonian
-    this->transformInteraction(transformator);
 
     // Apply transformator in order to remove rows and columns from the total Hamiltonian
     hamiltonian = transformator.adjoint() * hamiltonian * transformator;
+
+    // Do the same with the unperturbed basis vectors and Hamiltonian as well as with the matrices
+    // that help constructing the total Hamiltonian. Note that they might be given in a different
+    // basis than the current one, e.g. if the total Hamiltonian has been diagonalized.
+    Eigen::SparseMatrix<Scalar> transformator_unperturbed = transformator;
+    if (transformator_unperturbed_cache.size() != 0) {
+        transformator_unperturbed = transformator_unperturbed_cache * transformator;
+        transformator_unperturbed_cache.resize(0, 0);
+    }
+    if (basisvectors_unperturbed_cache.size() != 0) {
+        basisvectors_unperturbed_cache = basisvectors_unperturbed_cache * transformator_unperturbed;
+    }
+    this->transformInteraction(transformator_unperturbed);
     if (hamiltonian_unperturbed_cache.size() != 0) {
-        hamiltonian_unperturbed_cache =
-            transformator.adjoint() * hamiltonian_unperturbed_cache * transformator;
+        hamiltonian_unperturbed_cache = transformator_unperturbed.adjoint() *
+            hamiltonian_unperturbed_cache * transformator_unperturbed;
     }
 }
 
diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index 4482306..4b4dcf1 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -307,6 +307,9 @@ protected:
     Eigen::SparseMatrix<Scalar> hamiltonian;
     Eigen::SparseMatrix<Scalar> basisvectors_unperturbed_cache;
     Eigen::SparseMatrix<Scalar> hamiltonian_unperturbed_cache;
+    Eigen::SparseMatrix<Scalar> transformator_unperturbed_cache; // basisvectors =
+                                                                 // basisvectors_unperturbed_cache *
+                                                                 // transformator (empty: identity)
 
     ////////////////////////////////////////////////////////////////////
     /// Helper method that shoul be called by the derived classes //////
@@ -316,6 +319,14 @@ protected:
 
     void onSymmetryChange();
 
+    ////////////////////////////////////////////////////////////////////
+    /// Helper methods to relate the basis to the unperturbed one //////
+    ////////////////////////////////////////////////////////////////////
+
+    void onBasisChange(const Eigen::SparseMatrix<Scalar> &transformator);
+
+    void resetToUnperturbed();
+
     ////////////////////////////////////////////////////////////////////
     /// Helper methods to check diagonality and unitarity of a matrix //
     ////////////////////////////////////////////////////////////////////
@@ -401,7 +412,8 @@ private:
         ar &CEREAL_NVP(memory_saving) & CEREAL_NVP(is_interaction_already_contained) &
             CEREAL_NVP(is_new_hamiltonian_required);
         ar &CEREAL_NVP(states) & CEREAL_NVP(basisvectors) & CEREAL_NVP(hamiltonian);
-        ar &CEREAL_NVP(basisvectors_unperturbed_cache) & CEREAL_NVP(hamiltonian_unperturbed_cache);
+        ar &CEREAL_NVP(basisvectors_unperturbed_cache) & CEREAL_NVP(hamiltonian_unperturbed_cache) &
+            CEREAL_NVP(transformator_unperturbed_cache);
     }
 };
 
-- 
2.43.0


From 623e06a6eddd98846eba7d4cdb8fc561b3126b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:41 +0000
Subject: [PATCH 54/95] fix: basis vector indices of states without basis
 vector

getBasisvectorIndex returned size_t(-1) if no basis vector contains the state, and accessed
memory past the end if more states than existing basis vectors were passed.
---
 pairinteraction/SystemBase.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index f197ef5..48e15b7 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1193,6 +1193,10 @@ size_t SystemBase<Scalar, State>::getBasisvectorIndex(const State &searched_stat
         }
     }
 
+    if (maxval == -1) {
+        throw std::runtime_error("There is a state for which no basis vector could be found.");
+    }
+
     return col_with_maxval;
 }
 
@@ -1209,6 +1213,11 @@ SystemBase<Scalar, State>::getBasisvectorIndex(const std::vector<State> &searche
         }
     }
 
+    // Ensure that there is a basis vector for each state
+    if (Eigen::Index(searched_states.size()) > basisvectors.cols()) {
+        throw std::runtime_error("There is a state for which no basis vector could be found.");
+    }
+
     // Construct canonical basis vectors
     Eigen::SparseMatrix<Scalar> canonicalbasis;
     {
-- 
2.43.0


From 1f3401d38b637d356b55ab0e5fd9bea89a99e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:41 +0000
Subject: [PATCH 55/95] fix: rejected settings of a system must not be stored

Setting a field with a y-coordinate to a system of real numbers, incompatible symmetries, or
disabling the Green tensor in presence of a surface stored the setting before throwing.
The pairs of one-atom basis vectors can be set only as long as the basis does not exist.
---
 pairinteraction/SystemOne.cpp | 21 ++++++++++++++-------
 pairinteraction/SystemTwo.cpp | 12 ++++++++----
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 2bbbb6f..e0bd496 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -55,20 +55,24 @@ const std::string &SystemOne<Scalar>::getSpecies() const {
 
 template <typename Scalar>
 void SystemOne<Scalar>::setEfield(std::array<double, 3> field) {
+    // Transform the electric field into spherical coordinates
+    std::unordered_map<int, Scalar> field_spherical;
+    this->changeToSphericalbasis(field, field_spherical);
+
     this->onParameterChange();
     efield = field;
-
-    // Transform the electric field into spherical coordinates
-    this->changeToSphericalbasis(efield, efield_spherical);
+    efield_spherical = field_spherical;
 }
 
 template <typename Scalar>
 void SystemOne<Scalar>::setBfield(std::array<double, 3> field) {
+    // Transform the magnetic field into spherical coordinates
+    std::unordered_map<int, Scalar> field_spherical;
+    this->changeToSphericalbasis(field, field_spherical);
+
     this->onParameterChange();
     bfield = field;
-
-    // Transform the magnetic field into spherical coordinates
-    this->changeToSphericalbasis(bfield, bfield_spherical);
+    bfield_spherical = field_spherical;
 
     diamagnetism_terms[{{0, +0}}] = bfield_spherical[+0] * bfield_spherical[+0] -
         bfield_spherical[+1] * bfield_spherical[-1] * 2.;
@@ -134,8 +138,9 @@ void SystemOne<Scalar>::setRydIonDistance(double d) {
 template <typename Scalar>
 void SystemOne<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
-    sym_reflection = parity;
+    std::swap(sym_reflection, parity);
     if (!this->isRefelectionAndRotationCompatible()) {
+        std::swap(sym_reflection, parity);
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -148,8 +153,10 @@ void SystemOne<Scalar>::setConservedMomentaUnderRotation(const std::set<float> &
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
+    auto previous_momenta = sym_rotation;
     sym_rotation = momenta;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation = previous_momenta;
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 04f6010..453c1dd 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -88,12 +88,12 @@ const std::array<std::string, 2> &SystemTwo<Scalar>::getSpecies() {
 
 template <typename Scalar>
 void SystemTwo<Scalar>::enableGreenTensor(bool GTboolean) {
-    this->onParameterChange();
-    GTbool = GTboolean;
-    if (!GTbool && surface_distance != std::numeric_limits<double>::max()) {
+    if (!GTboolean && surface_distance != std::numeric_limits<double>::max()) {
         throw std::runtime_error("If there is interaction with a surface, the Green tensor "
                                  "approach must not be disabled.");
     }
+    this->onParameterChange();
+    GTbool = GTboolean;
 }
 
 template <typename Scalar>
@@ -155,8 +155,9 @@ void SystemTwo<Scalar>::setConservedParityUnderInversion(parity_t parity) {
 template <typename Scalar>
 void SystemTwo<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
-    sym_reflection = parity;
+    std::swap(sym_reflection, parity);
     if (!this->isRefelectionAndRotationCompatible()) {
+        std::swap(sym_reflection, parity);
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -173,8 +174,10 @@ void SystemTwo<Scalar>::setConservedMomentaUnderRotation(const std::set<int> &mo
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
+    auto previous_momenta = sym_rotation;
     sym_rotation = momenta;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation = previous_momenta;
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
@@ -191,6 +194,7 @@ void SystemTwo<Scalar>::setOneAtomBasisvectors(const std::vector<std::array<size
         throw std::runtime_error("The pairs of indices are not unique: " + which);
     }
 
+    this->onSymmetryChange();
     one_atom_basisvectors_indices = indices;
 }
 
-- 
2.43.0


From 485a9dbb8fb172ce8fb35569d7afea8b8e0b9fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:41 +0000
Subject: [PATCH 56/95] fix: a system remains usable if its basis cannot be
 built

If building the basis failed, e.g. because of a user-defined state of the wrong species, the
states found so far were kept, and each subsequent call failed because of inconsistent
variables.
---
 pairinteraction/SystemBase.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 48e15b7..2dfea28 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -548,7 +548,15 @@ void SystemBase<Scalar, State>::buildBasis() {
     if (states.empty()) {
 
         // Initialize the basis
-        this->initializeBasis();
+        try {
+            this->initializeBasis();
+        } catch (...) {
+            // Do not keep parts of the basis
+            states.clear();
+            basisvectors.resize(0, 0);
+            hamiltonian.resize(0, 0);
+            throw;
+        }
 
         // Forget basis restrictions as they were applied now
         this->forgetRestrictions();
-- 
2.43.0


From b24f1a60b16a7c649b3b6a4629e00df341ec1ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:41 +0000
Subject: [PATCH 57/95] fix: symmetries that require equal atoms accessed
 memory out of bounds for differing atoms

Permutation and inversion symmetry combine the basis vectors of both atoms so that the atoms
must be described by the same one-atom system. Indices of one-atom basis vectors are
checked, too.
---
 pairinteraction/SystemTwo.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 453c1dd..882bda3 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -223,8 +223,16 @@ void SystemTwo<Scalar>::initializeBasis() {
     /// Check whether the single atom states fit to the symmetries /////
     ////////////////////////////////////////////////////////////////////
 
-    if (sym_permutation != NA) {
-        // TODO check system1 == system2
+    if (sym_permutation != NA || sym_inversion != NA) {
+        double tolerance = 1e-9;
+        Eigen::SparseMatrix<Scalar> basisvectors1 = system1.getBasisvectors();
+        Eigen::SparseMatrix<Scalar> basisvectors2 = system2.getBasisvectors();
+        if (species[0] != species[1] || system1.getStates() != system2.getStates() ||
+            basisvectors1.cols() != basisvectors2.cols() ||
+            (basisvectors1 - basisvectors2).norm() > tolerance) {
+            throw std::runtime_error("In case of permutation or inversion symmetry, the same "
+                                     "one-atom system must be used for both atoms.");
+        }
     }
 
     // TODO consider further symmetries and check whether they are applicable
@@ -284,6 +292,13 @@ void SystemTwo<Scalar>::initializeBasis() {
     std::vector<std::array<size_t, 2>> pairs;
     if (!one_atom_basisvectors_indices.empty()) {
         pairs = one_atom_basisvectors_indices;
+        for (const auto &[col_1, col_2] : pairs) {
+            if (col_1 >= system1.getNumBasisvectors() || col_2 >= system2.getNumBasisvectors()) {
+                throw std::runtime_error("A pair of one-atom basis vectors with the indices " +
+                                         std::to_string(col_1) + ", " + std::to_string(col_2) +
+                                         " could not be found.");
+            }
+        }
     } else {
         pairs.reserve(system1.getNumBasisvectors() * system2.getNumBasisvectors());
         for (size_t col_1 = 0; col_1 < system1.getNumBasisvectors(); ++col_1) {
@@ -1601,6 +1616,10 @@ void SystemTwo<Scalar>::addBasisvectors(const StateTwo &state, const size_t &col
         this->states.emplace_back(row_new, state);
     }
 
+    if (row_new >= sqnorm_list.size()) {
+        sqnorm_list.resize(row_new + 1, 0);
+    }
+
     basisvectors_triplets.emplace_back(row_new, col_new, value_new);
     sqnorm_list[row_new] += std::pow(std::abs(value_new), 2);
 }
-- 
2.43.0


From 70cc5086dd1139608caf575fd622f9c766896218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:41 +0000
Subject: [PATCH 58/95] fix: systems with different ions or surfaces must not
 be combined

The settings of one of the systems were silently applied to the other one.
---
 pairinteraction/SystemOne.cpp | 8 +++++++-
 pairinteraction/SystemTwo.cpp | 8 ++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index e0bd496..f401585 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -742,7 +742,13 @@ void SystemOne<Scalar>::incorporate(SystemBase<Scalar, StateOne> &system) {
     }
     if (diamagnetism != dynamic_cast<SystemOne<Scalar> &>(system).diamagnetism) {
         throw std::runtime_error(
-            "The value of the variable 'ordermax' must be the same for both systems.");
+            "The value of the variable 'diamagnetism' must be the same for both systems.");
+    }
+    if (charge != dynamic_cast<SystemOne<Scalar> &>(system).charge ||
+        ordermax != dynamic_cast<SystemOne<Scalar> &>(system).ordermax ||
+        distance != dynamic_cast<SystemOne<Scalar> &>(system).distance) {
+        throw std::runtime_error(
+            "The settings of the ion must be the same for both systems.");
     }
 
     // Combine symmetries
diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 882bda3..8325e9b 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1506,6 +1506,14 @@ void SystemTwo<Scalar>::incorporate(SystemBase<Scalar, StateTwo> &system) {
         throw std::runtime_error(
             "The value of the variable 'distance' must be the same for both systems.");
     }
+    if (GTbool != dynamic_cast<SystemTwo &>(system).GTbool) {
+        throw std::runtime_error(
+            "The value of the variable 'GTbool' must be the same for both systems.");
+    }
+    if (surface_distance != dynamic_cast<SystemTwo &>(system).surface_distance) {
+        throw std::runtime_error(
+            "The value of the variable 'surface_distance' must be the same for both systems.");
+    }
     if (ordermax != dynamic_cast<SystemTwo &>(system).ordermax) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
-- 
2.43.0


From 5081fa7a4a78f9f59d9acf7c924738989b67fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:00 +0000
Subject: [PATCH 59/95] fix: symmetries of pairs with half-integer total
 angular momentum must be refused

The total magnetic quantum number was cut to an integer, so that sectors of different
momenta were mixed, and the signs of the parities were not a number.
---
 pairinteraction/SystemTwo.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 8325e9b..9cc3311 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -362,7 +362,14 @@ void SystemTwo<Scalar>::initializeBasis() {
 
                 Scalar value_new = triple_1.value() * triple_2.value();
 
-                if (!artificial1[col_1] && !artificial2[col_2]) {
+                if (!artificial1[col_1] && !artificial2[col_2] &&
+                    (sym_inversion_local != NA || sym_reflection_local != NA ||
+                     sym_rotation_local.count(ARB) == 0)) {
+                    if (std::fmod(state_1.getJ() + state_2.getJ(), 1) != 0) {
+                        throw std::runtime_error("Inversion, reflection, and rotation symmetry are "
+                                                 "not supported if the total angular momentum of "
+                                                 "the pair is half-integer.");
+                    }
                     M = state_1.getM() + state_2.getM();
                     parityL = std::pow(-1, state_1.getL() + state_2.getL());
                     parityJ = std::pow(-1, state_1.getJ() + state_2.getJ());
-- 
2.43.0


From d65a253139385b2963eea90c1b004fde125fc12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 60/95] fix: reflection symmetry of states with integer total
 angular momentum

For singlet and triplet species, the states of magnetic quantum number zero were contained
in both sectors, and the superpositions had the phase that is required for half-integer
momenta.
---
 pairinteraction/SystemOne.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index f401585..a7b0c1c 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -790,10 +790,15 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
     std::vector<Eigen::Triplet<Scalar>> &basisvectors_triplets,
     std::vector<Eigen::Triplet<Scalar>> &hamiltonian_triplets, parity_t &sym_reflection_local) {
     // In case of reflection symmetry, skip half of the basis vectors
-    if (sym_reflection_local != NA && state.getM() != 0) {
+    bool integer_momentum = std::fmod(state.getJ(), 1) == 0;
+    if (sym_reflection_local != NA) {
         if (state.getM() < 0) {
             return;
         }
+        if (state.getM() == 0 &&
+            (std::pow(-1, state.getL() + state.getJ()) == 1) != (sym_reflection_local == EVEN)) {
+            return; // the state is an eigenstate of the reflection with the other parity
+        }
     }
 
     // Store the energy of the unperturbed one atom state
@@ -810,8 +815,10 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
 
     // Add further entries to the current basis vector if required by symmetries
     if (sym_reflection_local != NA && state.getM() != 0) {
-        value *= std::pow(-1, state.getL() + state.getM() - state.getJ()) *
-            utils::imaginary_unit<Scalar>();
+        value *= std::pow(-1, state.getL() + state.getM() - state.getJ());
+        if (!integer_momentum) {
+            value *= utils::imaginary_unit<Scalar>();
+        }
         value *= (sym_reflection_local == EVEN) ? 1 : -1;
         // S_y is invariant under reflection through xz-plane
         // TODO is the s quantum number of importance here?
-- 
2.43.0


From f70b8f6b71cc51ea5f5b333d5a513885cee801fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:20 +0000
Subject: [PATCH 61/95] fix: refused unitarization must not destroy the system

---
 pairinteraction/SystemBase.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 2dfea28..81f4922 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -381,6 +381,10 @@ std::vector<State> SystemBase<Scalar, State>::getMainStates() {
             }
         }
 
+        if (maxval == -1) {
+            throw std::runtime_error("There is a basis vector without any contribution.");
+        }
+
         states_with_maxval.push_back(states[row_with_maxval].state);
     }
 
@@ -783,7 +787,7 @@ void SystemBase<Scalar, State>::unitarize() {
     // Loop over basisvectors
     size_t num_basisvectors = basisvectors.outerSize();
 
-    states.clear();
+    typename states_set<State>::type states_new;
     size_t idx_new = 0;
     for (int k = 0; k < basisvectors.outerSize(); ++k) { // col == idx_vector
         size_t hashvalue = hashvalue_states;
@@ -796,14 +800,17 @@ void SystemBase<Scalar, State>::unitarize() {
         // Rewrite basisvectors as states
         std::stringstream ss;
         ss << std::hex << hashvalue;
-        states.push_back(enumerated_state<State>(idx_new++, createStateFromLabel<State>(ss.str())));
+        states_new.push_back(
+            enumerated_state<State>(idx_new++, createStateFromLabel<State>(ss.str())));
     }
-    states.shrink_to_fit();
+    states_new.shrink_to_fit();
 
-    if (num_basisvectors != states.size()) {
+    if (num_basisvectors != states_new.size()) {
         throw std::runtime_error("A hash collision occurred.");
     }
 
+    states.swap(states_new);
+
     // Adapt basisvectors
     basisvectors.resize(states.size(), states.size());
     basisvectors.setZero();
-- 
2.43.0


From 4b70fc5a16b25855818787781e828c3c048c2d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:49 +0000
Subject: [PATCH 62/95] fix: pair states with open quantum numbers of one atom
 only; basis vectors of states that do not contribute

---
 pairinteraction/SystemBase.cpp | 14 +++++++-------
 pairinteraction/utils.hpp      |  6 ++++++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 81f4922..bca1381 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -238,7 +238,7 @@ SystemBase<Scalar, State>::getOverlap(const std::vector<State> &generalizedstate
     states_indices.reserve(generalizedstates.size());
 
     for (const auto &searched_state : generalizedstates) {
-        if (utils::is_true(searched_state.isGeneralized())) {
+        if (utils::is_any_true(searched_state.isGeneralized())) {
             for (const auto &state : states) {
                 if (state.state ^ searched_state) { // Check whether state.state is contained in
                                                     // searched_state
@@ -1152,7 +1152,7 @@ template <class Scalar, class State>
 size_t SystemBase<Scalar, State>::getStateIndex(const State &searched_state) {
     this->buildBasis();
 
-    if (utils::is_true(searched_state.isGeneralized())) {
+    if (utils::is_any_true(searched_state.isGeneralized())) {
         throw std::runtime_error("The method must not be called on a generalized state.");
     }
 
@@ -1173,7 +1173,7 @@ SystemBase<Scalar, State>::getStateIndex(const std::vector<State> &searched_stat
     indices.reserve(searched_states.size());
 
     for (const auto &state : searched_states) {
-        if (utils::is_true(state.isGeneralized())) {
+        if (utils::is_any_true(state.isGeneralized())) {
             throw std::runtime_error("The method must not be called on a generalized state.");
         }
 
@@ -1193,7 +1193,7 @@ size_t SystemBase<Scalar, State>::getBasisvectorIndex(const State &searched_stat
 
     Eigen::Index stateidx = this->getStateIndex(searched_state);
 
-    double maxval = -1;
+    double maxval = 0;
     size_t col_with_maxval = -1;
     for (int k = 0; k < basisvectors.outerSize(); ++k) { // col == idx_vector
         for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(basisvectors, k); triple;
@@ -1208,7 +1208,7 @@ size_t SystemBase<Scalar, State>::getBasisvectorIndex(const State &searched_stat
         }
     }
 
-    if (maxval == -1) {
+    if (maxval == 0) {
         throw std::runtime_error("There is a state for which no basis vector could be found.");
     }
 
@@ -1265,7 +1265,7 @@ SystemBase<Scalar, State>::getBasisvectorIndex(const std::vector<State> &searche
     std::vector<size_t> indices(canonicalbasis.cols(), std::numeric_limits<size_t>::max());
     for (const auto &k : indices_available) {
         size_t row_with_maxval;
-        double maxval = -1;
+        double maxval = 0;
         for (typename Eigen::SparseMatrix<double>::InnerIterator triple(overlap, k); triple;
              ++triple) {
             if (indices[triple.row()] == std::numeric_limits<size_t>::max() &&
@@ -1275,7 +1275,7 @@ SystemBase<Scalar, State>::getBasisvectorIndex(const std::vector<State> &searche
             }
         }
 
-        if (maxval == -1) {
+        if (maxval == 0) {
             throw std::runtime_error("There is a state for which no basis vector could be found.");
         }
 
diff --git a/pairinteraction/utils.hpp b/pairinteraction/utils.hpp
index 6e8c03f..0a6e06f 100644
--- a/pairinteraction/utils.hpp
+++ b/pairinteraction/utils.hpp
@@ -55,6 +55,12 @@ inline bool is_true(const T &val) {
 }
 inline bool is_true(bool val) { return val; }
 
+template <typename T>
+inline bool is_any_true(const T &val) {
+    return std::any_of(val.begin(), val.end(), [](bool i) { return i; });
+}
+inline bool is_any_true(bool val) { return val; }
+
 template <typename T>
 inline typename std::enable_if<!is_complex<T>::value, T>::type imaginary_unit() {
     throw std::runtime_error(
-- 
2.43.0


From b396bbb5f47d20c31873dd28f3331d496c06d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 63/95] fix: artificial states can be added to one-atom systems
 again

---
 pairinteraction/SystemOne.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index a7b0c1c..3dd746c 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -790,7 +790,6 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
     std::vector<Eigen::Triplet<Scalar>> &basisvectors_triplets,
     std::vector<Eigen::Triplet<Scalar>> &hamiltonian_triplets, parity_t &sym_reflection_local) {
     // In case of reflection symmetry, skip half of the basis vectors
-    bool integer_momentum = std::fmod(state.getJ(), 1) == 0;
     if (sym_reflection_local != NA) {
         if (state.getM() < 0) {
             return;
@@ -816,7 +815,7 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
     // Add further entries to the current basis vector if required by symmetries
     if (sym_reflection_local != NA && state.getM() != 0) {
         value *= std::pow(-1, state.getL() + state.getM() - state.getJ());
-        if (!integer_momentum) {
+        if (std::fmod(state.getJ(), 1) != 0) {
             value *= utils::imaginary_unit<Scalar>();
         }
         value *= (sym_reflection_local == EVEN) ? 1 : -1;
-- 
2.43.0


From 594e3a4acd331e9ecf9773ac0aa841879fa45f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:24 +0000
Subject: [PATCH 64/95] fix: eigenvectors of decoupled parts with equal
 energies must not be mixed, which broke the momenta of pair states

---
 pairinteraction/SystemBase.cpp | 108 +++++++++++++++++++++++++++------
 1 file changed, 88 insertions(+), 20 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index bca1381..344d616 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -25,6 +25,7 @@
 #include <unsupported/Eigen/MatrixFunctions>
 
 #include <numeric>
+#include <utility>
 
 #ifdef WITH_INTEL_MKL
 #define MKL_Complex8 std::complex<float>
@@ -717,34 +718,101 @@ void SystemBase<Scalar, State>::diagonalize(double threshold) {
         return;
     }
 
-#if defined EIGEN_USE_LAPACKE || WITH_INTEL_MKL
-
-    // Diagonalize hamiltonian
-    char jobz = 'V';                          // eigenvalues and eigenvectors are computed
-    char uplo = 'U';                          // full matrix is stored, upper is used
-    int n = hamiltonian.cols();               // size of the matrix
-    Eigen::MatrixX<Scalar> mat = hamiltonian; // matrix
-    int lda = mat.outerStride();              // leading dimension
-    Eigen::VectorX<double> evals(n);          // eigenvalues
-    int info = LAPACKE_evd(LAPACK_COL_MAJOR, jobz, uplo, n, mat.data(), lda, evals.data());
-    if (info != 0) {
-        throw std::runtime_error("Diagonalization with LAPACKE failed.");
+    // Find the blocks of the Hamiltonian. The blocks are diagonalized one by one in order to not
+    // mix eigenvectors of the same energy that belong to different blocks, e.g. to different
+    // momenta.
+    std::vector<Eigen::Index> root(hamiltonian.cols());
+    std::iota(root.begin(), root.end(), 0);
+    auto find_root = [&root](Eigen::Index idx) {
+        while (root[idx] != idx) {
+            root[idx] = root[root[idx]];
+            idx = root[idx];
+        }
+        return idx;
+    };
+    for (int k = 0; k < hamiltonian.outerSize(); ++k) {
+        for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(hamiltonian, k); triple;
+             ++triple) {
+            if (triple.value() != Scalar(0)) {
+                root[find_root(triple.row())] = find_root(triple.col());
+            }
+        }
+    }
+    std::vector<std::vector<Eigen::Index>> blocks(hamiltonian.cols());
+    for (Eigen::Index idx = 0; idx < hamiltonian.cols(); ++idx) {
+        blocks[find_root(idx)].push_back(idx);
     }
 
-    // Get eigenvectors
-    Eigen::SparseMatrix<Scalar> evecs = mat.sparseView();
+    // Diagonalize the blocks
+    std::vector<std::pair<double, std::vector<Eigen::Triplet<Scalar>>>> eigenpairs;
+    eigenpairs.reserve(hamiltonian.cols());
+    std::vector<Eigen::Index> position(hamiltonian.cols());
+    for (const auto &block : blocks) {
+        if (block.empty()) {
+            continue;
+        }
 
-#else // EIGEN_USE_LAPACKE || WITH_INTEL_MKL
+        int n = block.size(); // size of the matrix
+        Eigen::MatrixX<Scalar> mat = Eigen::MatrixX<Scalar>::Zero(n, n);
+        for (int idx = 0; idx < n; ++idx) {
+            position[block[idx]] = idx;
+        }
+        for (int idx = 0; idx < n; ++idx) {
+            for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(hamiltonian,
+                                                                            block[idx]);
+                 triple; ++triple) {
+                if (triple.value() != Scalar(0)) {
+                    mat(position[triple.row()], idx) = triple.value();
+                }
+            }
+        }
 
-    // Diagonalize hamiltonian
-    Eigen::SelfAdjointEigenSolver<Eigen::MatrixX<Scalar>> eigensolver(hamiltonian);
+#if defined EIGEN_USE_LAPACKE || WITH_INTEL_MKL
 
-    // Get eigenvalues and eigenvectors
-    Eigen::VectorX<double> evals = eigensolver.eigenvalues();
-    Eigen::SparseMatrix<Scalar> evecs = eigensolver.eigenvectors().sparseView();
+        char jobz = 'V';                       // eigenvalues and eigenvectors are computed
+        char uplo = 'U';                       // full matrix is stored, upper is used
+        int lda = mat.outerStride();           // leading dimension
+        Eigen::VectorX<double> block_evals(n); // eigenvalues
+        int info =
+            LAPACKE_evd(LAPACK_COL_MAJOR, jobz, uplo, n, mat.data(), lda, block_evals.data());
+        if (info != 0) {
+            throw std::runtime_error("Diagonalization with LAPACKE failed.");
+        }
+
+#else // EIGEN_USE_LAPACKE || WITH_INTEL_MKL
+
+        Eigen::SelfAdjointEigenSolver<Eigen::MatrixX<Scalar>> eigensolver(mat);
+        Eigen::VectorX<double> block_evals = eigensolver.eigenvalues();
+        mat = eigensolver.eigenvectors();
 
 #endif // EIGEN_USE_LAPACKE || WITH_INTEL_MKL
 
+        for (int idx = 0; idx < n; ++idx) {
+            eigenpairs.emplace_back(block_evals[idx], std::vector<Eigen::Triplet<Scalar>>());
+            for (int row = 0; row < n; ++row) {
+                if (mat(row, idx) != Scalar(0)) {
+                    eigenpairs.back().second.emplace_back(block[row], 0, mat(row, idx));
+                }
+            }
+        }
+    }
+
+    // Sort the eigenpairs by the eigenvalues
+    std::stable_sort(eigenpairs.begin(), eigenpairs.end(),
+                     [](const auto &a, const auto &b) { return a.first < b.first; });
+
+    // Get eigenvalues and eigenvectors
+    Eigen::VectorX<double> evals(hamiltonian.cols());
+    std::vector<Eigen::Triplet<Scalar>> evecs_triplets;
+    for (size_t idx = 0; idx < eigenpairs.size(); ++idx) {
+        evals[idx] = eigenpairs[idx].first;
+        for (const auto &triple : eigenpairs[idx].second) {
+            evecs_triplets.emplace_back(triple.row(), idx, triple.value());
+        }
+    }
+    Eigen::SparseMatrix<Scalar> evecs(hamiltonian.rows(), hamiltonian.cols());
+    evecs.setFromTriplets(evecs_triplets.begin(), evecs_triplets.end());
+
     // Build the new hamiltonian
     hamiltonian.setZero();
     hamiltonian.reserve(evals.size());
-- 
2.43.0


From add87bbb06151ecf8a1b1f610a537ae90ef3727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:06 +0000
Subject: [PATCH 65/95] fix: combining systems whose number of basis vectors
 differs from the unperturbed one

---
 pairinteraction/SystemBase.cpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 344d616..ba01afc 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1046,29 +1046,27 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     }
 
     // --- Combine hamiltonian and hamiltonian_unperturbed_cache ---
-    Eigen::SparseMatrix<Scalar> shifter(hamiltonian.rows() + system.hamiltonian.rows(),
-                                        system.hamiltonian.rows());
-    {
-        std::vector<Eigen::Triplet<Scalar>> shifter_triplets;
-        shifter_triplets.reserve(system.hamiltonian.rows());
+    auto append_block = [](Eigen::SparseMatrix<Scalar> &matrix,
+                           const Eigen::SparseMatrix<Scalar> &block) {
+        Eigen::Index size = matrix.rows();
 
-        for (Eigen::Index idx = 0; idx < system.hamiltonian.rows(); ++idx) {
-            shifter_triplets.emplace_back(hamiltonian.rows() + idx, idx, 1);
+        std::vector<Eigen::Triplet<Scalar>> shifter_triplets;
+        shifter_triplets.reserve(block.rows());
+        for (Eigen::Index idx = 0; idx < block.rows(); ++idx) {
+            shifter_triplets.emplace_back(size + idx, idx, 1);
         }
-
+        Eigen::SparseMatrix<Scalar> shifter(size + block.rows(), block.rows());
         shifter.setFromTriplets(shifter_triplets.begin(), shifter_triplets.end());
-    }
 
-    hamiltonian.conservativeResize(hamiltonian.rows() + system.hamiltonian.rows(),
-                                   hamiltonian.cols() + system.hamiltonian.cols());
-    hamiltonian.rightCols(system.hamiltonian.cols()) = shifter * system.hamiltonian;
+        matrix.conservativeResize(size + block.rows(), size + block.cols());
+        matrix.rightCols(block.cols()) = shifter * block;
+    };
+
+    append_block(hamiltonian, system.hamiltonian);
 
+    // Note that the number of unperturbed basis vectors might differ from the current one
     if (hamiltonian_unperturbed_cache.size() != 0) {
-        hamiltonian_unperturbed_cache.conservativeResize(
-            hamiltonian_unperturbed_cache.rows() + system.hamiltonian_unperturbed_cache.rows(),
-            hamiltonian_unperturbed_cache.cols() + system.hamiltonian_unperturbed_cache.cols());
-        hamiltonian_unperturbed_cache.rightCols(system.hamiltonian_unperturbed_cache.cols()) =
-            shifter * system.hamiltonian_unperturbed_cache;
+        append_block(hamiltonian_unperturbed_cache, system.hamiltonian_unperturbed_cache);
     }
 }
 
-- 
2.43.0


From 6db07f78edbdf5cb2f631c8905a720562a5f5b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:00 +0000
Subject: [PATCH 66/95] fix: restricting a basis to nothing or adding states to
 it left an unusable system

The exception was thrown after the basis had been discarded, so that the next
call silently built it again without any restriction, or crashed because of
interaction terms that were still stored. A state that was added too late
made each subsequent call fail.
---
 pairinteraction/SystemBase.cpp | 74 ++++++++++++++++++++++++++++------
 pairinteraction/SystemBase.hpp |  2 +
 2 files changed, 63 insertions(+), 13 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index ba01afc..c20995f 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -555,6 +555,14 @@ void SystemBase<Scalar, State>::buildBasis() {
         // Initialize the basis
         try {
             this->initializeBasis();
+
+            // Check whether the basis is empty
+            if (basisvectors.rows() == 0) {
+                throw std::runtime_error("The basis contains no states.");
+            }
+            if (basisvectors.cols() == 0) {
+                throw std::runtime_error("The basis contains no vectors.");
+            }
         } catch (...) {
             // Do not keep parts of the basis
             states.clear();
@@ -569,14 +577,6 @@ void SystemBase<Scalar, State>::buildBasis() {
     } else {
         this->updateEverything();
     }
-
-    // Check whether the basis is empty
-    if (basisvectors.rows() == 0) {
-        throw std::runtime_error("The basis contains no states.");
-    }
-    if (basisvectors.cols() == 0) {
-        throw std::runtime_error("The basis contains no vectors.");
-    }
 }
 
 template <class Scalar, class State>
@@ -1587,6 +1587,44 @@ bool SystemBase<Scalar, State>::checkIsEnergyValid(double e) {
              std::numeric_limits<double_t>::max()); // TODO take into account numerical errors
 }
 
+template <class Scalar, class State>
+bool SystemBase<Scalar, State>::checkIsBasisLeft() {
+    // Determine which states are allowed by the restrictions of the quantum numbers
+    std::vector<bool> is_state_valid(basisvectors.rows());
+    for (const auto &entry : states) {
+        is_state_valid[entry.idx] = checkIsQuantumstateValid(entry.state);
+    }
+
+    // Add up the contributions of the states to the basis vectors that fulfill the restrictions
+    std::vector<double> sqnorm_list(basisvectors.rows(), 0);
+    for (int k = 0; k < basisvectors.cols(); ++k) {
+        if (!checkIsEnergyValid(std::real(hamiltonian.coeff(k, k)))) {
+            continue;
+        }
+
+        double sqnorm = 0;
+        for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(basisvectors, k); triple;
+             ++triple) {
+            if (is_state_valid[triple.row()]) {
+                sqnorm += std::pow(std::abs(triple.value()), 2);
+            }
+        }
+        if (sqnorm <= threshold_for_sqnorm) {
+            continue;
+        }
+
+        for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(basisvectors, k); triple;
+             ++triple) {
+            if (is_state_valid[triple.row()]) {
+                sqnorm_list[triple.row()] += std::pow(std::abs(triple.value()), 2);
+            }
+        }
+    }
+
+    return std::any_of(sqnorm_list.begin(), sqnorm_list.end(),
+                       [this](double sqnorm) { return sqnorm > threshold_for_sqnorm; });
+}
+
 ////////////////////////////////////////////////////////////////////
 /// Helper methods to change the set of basis vectors //////////////
 ////////////////////////////////////////////////////////////////////
@@ -1734,6 +1772,21 @@ void SystemBase<Scalar, State>::forgetRestrictions() {
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::updateEverything() {
 
+    ////////////////////////////////////////////////////////////////////
+    /// Refuse impossible changes before anything is modified //////////
+    ////////////////////////////////////////////////////////////////////
+
+    if (!states_to_add.empty()) {
+        this->forgetRestrictions();
+        throw std::runtime_error(
+            "States cannot be added anymore once the basis vectors have been created.");
+    }
+
+    if (!checkIsBasisLeft()) {
+        this->forgetRestrictions();
+        throw std::runtime_error("The basis contains no states.");
+    }
+
     if (!range_n.empty() || !range_l.empty() || !range_j.empty() || !range_m.empty()) {
 
         ////////////////////////////////////////////////////////////////////
@@ -1803,11 +1856,6 @@ void SystemBase<Scalar, State>::updateEverything() {
         this->onStatesChange();
     }
 
-    if (!states_to_add.empty()) {
-        throw std::runtime_error(
-            "States cannot be added anymore once the basis vectors have been created.");
-    }
-
     // Forget basis restrictions as they were applied now
     this->forgetRestrictions();
 }
diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index 4b4dcf1..091c3de 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -352,6 +352,8 @@ protected:
 
     bool checkIsEnergyValid(double e);
 
+    bool checkIsBasisLeft();
+
     ////////////////////////////////////////////////////////////////////
     /// Helper methods to change the set of basis vectors //////////////
     ////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 106b54c6bbc2ad53f677085819d58ceac3ee49ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:01 +0000
Subject: [PATCH 67/95] fix: archives of systems lacked some of the settings

The ion, the Green tensor option, the multipole interaction with the ion and
the chosen products of one-atom basis vectors were not stored, and loading a
system that already has a basis appended the states.
---
 pairinteraction/SystemBase.hpp | 1 +
 pairinteraction/SystemOne.cpp  | 4 +++-
 pairinteraction/SystemOne.hpp  | 3 ++-
 pairinteraction/SystemTwo.hpp  | 8 +++++---
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index 091c3de..0aca075 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -105,6 +105,7 @@ void load(Archive &ar,
           boost::multi_index::multi_index_container<Value, IndexSpecifierList, Allocator> &vector) {
     size_type size;
     ar(make_size_tag(size));
+    vector.clear();
     vector.reserve(static_cast<size_type>(size));
     for (size_type i = 0; i < size; ++i) {
         Value v;
diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 3dd746c..5ce02e8 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -34,7 +34,9 @@
 
 template <typename Scalar>
 SystemOne<Scalar>::SystemOne()
-    : efield({{0, 0, 0}}), bfield({{0, 0, 0}}), sym_rotation({static_cast<float>(ARB)}) {}
+    : efield({{0, 0, 0}}), bfield({{0, 0, 0}}), diamagnetism(true), charge(0), ordermax(0),
+      distance(std::numeric_limits<double>::max()), sym_reflection(NA),
+      sym_rotation({static_cast<float>(ARB)}) {}
 
 template <typename Scalar>
 SystemOne<Scalar>::SystemOne(std::string species, MatrixElementCache &cache)
diff --git a/pairinteraction/SystemOne.hpp b/pairinteraction/SystemOne.hpp
index ef9fdd1..f1d91e7 100644
--- a/pairinteraction/SystemOne.hpp
+++ b/pairinteraction/SystemOne.hpp
@@ -170,11 +170,12 @@ private:
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateOne>>(this));
         ar &CEREAL_NVP(species);
         ar &CEREAL_NVP(efield) & CEREAL_NVP(bfield) & CEREAL_NVP(diamagnetism) &
+            CEREAL_NVP(charge) & CEREAL_NVP(ordermax) & CEREAL_NVP(distance) &
             CEREAL_NVP(sym_reflection) & CEREAL_NVP(sym_rotation);
         ar &CEREAL_NVP(efield_spherical) & CEREAL_NVP(bfield_spherical) &
             CEREAL_NVP(diamagnetism_terms);
         ar &CEREAL_NVP(interaction_efield) & CEREAL_NVP(interaction_bfield) &
-            CEREAL_NVP(interaction_diamagnetism);
+            CEREAL_NVP(interaction_diamagnetism) & CEREAL_NVP(interaction_multipole);
     }
 };
 
diff --git a/pairinteraction/SystemTwo.hpp b/pairinteraction/SystemTwo.hpp
index 54249a7..e0bc7b9 100644
--- a/pairinteraction/SystemTwo.hpp
+++ b/pairinteraction/SystemTwo.hpp
@@ -32,6 +32,7 @@
 #include <cereal/types/polymorphic.hpp>
 #include <cereal/types/string.hpp>
 #include <cereal/types/unordered_map.hpp>
+#include <cereal/types/vector.hpp>
 
 #include <cmath>
 #include <set>
@@ -186,15 +187,16 @@ private:
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateTwo>>(this));
         ar &CEREAL_NVP(species) & CEREAL_NVP(system1) & CEREAL_NVP(system2);
-        ar &CEREAL_NVP(distance) & CEREAL_NVP(distance_x) & CEREAL_NVP(distance_y) &
-            CEREAL_NVP(distance_z) & CEREAL_NVP(surface_distance) & CEREAL_NVP(ordermax);
+        ar &CEREAL_NVP(minimal_le_roy_radius) & CEREAL_NVP(distance) & CEREAL_NVP(distance_x) &
+            CEREAL_NVP(distance_y) & CEREAL_NVP(distance_z) & CEREAL_NVP(GTbool) &
+            CEREAL_NVP(surface_distance) & CEREAL_NVP(ordermax);
         ar &CEREAL_NVP(sym_permutation) & CEREAL_NVP(sym_inversion) & CEREAL_NVP(sym_reflection) &
             CEREAL_NVP(sym_rotation);
         ar &CEREAL_NVP(angle_terms) & CEREAL_NVP(greentensor_terms_dd) &
             CEREAL_NVP(greentensor_terms_dq) & CEREAL_NVP(greentensor_terms_qd);
         ar &CEREAL_NVP(interaction_angulardipole) & CEREAL_NVP(interaction_multipole) &
             CEREAL_NVP(interaction_greentensor_dd) & CEREAL_NVP(interaction_greentensor_dq) &
-            CEREAL_NVP(interaction_greentensor_qd);
+            CEREAL_NVP(interaction_greentensor_qd) & CEREAL_NVP(one_atom_basisvectors_indices);
     }
 };
 
-- 
2.43.0


From 24b36da8ba10841c254de1aa8b5275d42139678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:40 +0000
Subject: [PATCH 68/95] fix: C3 coefficients of pair states of different
 species are zero instead of an exception

---
 pairinteraction/PerturbativeInteraction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 9dd04e9..9e16441 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -298,6 +298,11 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC3(const std::vector<StateTwo
         for (size_t idx_col = idx_row + 1; idx_col < states.size(); ++idx_col) {
             auto &state_col = states[idx_col];
 
+            if (state_row.getSpecies(0) != state_col.getSpecies(0) ||
+                state_row.getSpecies(1) != state_col.getSpecies(1)) {
+                continue;
+            }
+
             int q0 = state_row.getM(0) - state_col.getM(0);
             int q1 = state_row.getM(1) - state_col.getM(1);
 
-- 
2.43.0


From a8ac12979351edb2d6435c1b10f632f7f9a0617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:19 +0000
Subject: [PATCH 69/95] fix: C6 coefficients of sets of states lacked
 intermediate states

---
 pairinteraction/PerturbativeInteraction.cpp | 62 ++++++++-------------
 1 file changed, 22 insertions(+), 40 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 9e16441..66233bd 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -62,30 +62,16 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
                 for (int l1 : array_l1) {
 
                     std::set<float> array_j0;
-                    if (std::abs(std::abs(l0 - state.getS(0)) - state.getJ(0)) < 2) {
-                        array_j0.insert(std::abs(l0 - state.getS(0)));
-                    }
-                    if (std::abs(l0 + state.getS(0) - state.getJ(0)) < 2) {
-                        array_j0.insert(l0 + state.getS(0));
-                    }
-                    if (array_j0.size() == 2) {
-                        for (float j0 = std::abs(l0 - state.getS(0)) + 1; j0 < l0 + state.getS(0);
-                             ++j0) {
+                    for (float j0 = std::abs(l0 - state.getS(0)); j0 <= l0 + state.getS(0); ++j0) {
+                        if (std::abs(j0 - state.getJ(0)) < 2) {
                             array_j0.insert(j0);
                         }
                     }
                     for (float j0 : array_j0) {
 
                         std::set<float> array_j1;
-                        if (std::abs(std::abs(l1 - state.getS(1)) - state.getJ(1)) < 2) {
-                            array_j1.insert(std::abs(l1 - state.getS(1)));
-                        }
-                        if (std::abs(l1 + state.getS(1) - state.getJ(1)) < 2) {
-                            array_j1.insert(l1 + state.getS(1));
-                        }
-                        if (array_j1.size() == 2) {
-                            for (float j1 = std::abs(l1 - state.getS(1)) + 1;
-                                 j1 < l1 + state.getS(1); ++j1) {
+                        for (float j1 = std::abs(l1 - state.getS(1)); j1 <= l1 + state.getS(1); ++j1) {
+                            if (std::abs(j1 - state.getJ(1)) < 2) {
                                 array_j1.insert(j1);
                             }
                         }
@@ -175,11 +161,11 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                             array_l0.push_back(state_col.getL(0) - 1);
                         }
                     } else if (state_row.getL(0) + 2 == state_col.getL(0) &&
-                               state_col.getL(0) < n0 - 1) {
-                        array_l0.push_back(state_col.getL(0) + 1);
-                    } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
-                               state_col.getL(0) > 0) {
+                               state_col.getL(0) - 1 < n0) {
                         array_l0.push_back(state_col.getL(0) - 1);
+                    } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
+                               state_col.getL(0) + 1 < n0) {
+                        array_l0.push_back(state_col.getL(0) + 1);
                     }
                     for (int l0 : array_l0) {
 
@@ -192,33 +178,29 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                                 array_l1.push_back(state_col.getL(1) - 1);
                             }
                         } else if (state_row.getL(1) + 2 == state_col.getL(1) &&
-                                   state_col.getL(1) < n1 - 1) {
-                            array_l1.push_back(state_col.getL(1) + 1);
-                        } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
-                                   state_col.getL(1) > 0) {
+                                   state_col.getL(1) - 1 < n1) {
                             array_l1.push_back(state_col.getL(1) - 1);
+                        } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
+                                   state_col.getL(1) + 1 < n1) {
+                            array_l1.push_back(state_col.getL(1) + 1);
                         }
                         for (int l1 : array_l1) {
 
                             std::set<float> array_j0;
-                            if (std::abs(std::abs(l0 - s[0]) - state_col.getJ(0)) < 2 &&
-                                std::abs(std::abs(l0 - s[0]) - state_row.getJ(0)) < 2) {
-                                array_j0.insert(std::abs(l0 - s[0]));
-                            }
-                            if (std::abs(l0 + s[0] - state_col.getJ(0)) < 2 &&
-                                std::abs(l0 + s[0] - state_row.getJ(0)) < 2) {
-                                array_j0.insert(l0 + s[0]);
+                            for (float j0 = std::abs(l0 - s[0]); j0 <= l0 + s[0]; ++j0) {
+                                if (std::abs(j0 - state_col.getJ(0)) < 2 &&
+                                    std::abs(j0 - state_row.getJ(0)) < 2) {
+                                    array_j0.insert(j0);
+                                }
                             }
                             for (float j0 : array_j0) {
 
                                 std::set<float> array_j1;
-                                if (std::abs(std::abs(l1 - s[1]) - state_col.getJ(1)) < 2 &&
-                                    std::abs(std::abs(l1 - s[1]) - state_row.getJ(1)) < 2) {
-                                    array_j1.insert(std::abs(l1 - s[1]));
-                                }
-                                if (std::abs(l1 + s[1] - state_col.getJ(1)) < 2 &&
-                                    std::abs(l1 + s[1] - state_row.getJ(1)) < 2) {
-                                    array_j1.insert(l1 + s[1]);
+                                for (float j1 = std::abs(l1 - s[1]); j1 <= l1 + s[1]; ++j1) {
+                                    if (std::abs(j1 - state_col.getJ(1)) < 2 &&
+                                        std::abs(j1 - state_row.getJ(1)) < 2) {
+                                        array_j1.insert(j1);
+                                    }
                                 }
                                 for (float j1 : array_j1) {
 
-- 
2.43.0


From 7d786d2f9da6b9daa9d21fbf10418a473d98e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:19 +0000
Subject: [PATCH 70/95] fix: C6 coefficients included intermediate states that
 do not exist

---
 pairinteraction/PerturbativeInteraction.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 66233bd..971993c 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -44,7 +44,7 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
         for (int n1 = state.getN(1) - deltaN; n1 <= state.getN(1) + deltaN; ++n1) {
 
             std::vector<int> array_l0;
-            if (state.getL(0) > 0) {
+            if (state.getL(0) > 0 && state.getL(0) - 1 < n0) {
                 array_l0.push_back(state.getL(0) - 1);
             }
             if (state.getL(0) < n0 - 1) {
@@ -53,7 +53,7 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
             for (int l0 : array_l0) {
 
                 std::vector<int> array_l1;
-                if (state.getL(1) > 0) {
+                if (state.getL(1) > 0 && state.getL(1) - 1 < n1) {
                     array_l1.push_back(state.getL(1) - 1);
                 }
                 if (state.getL(1) < n1 - 1) {
@@ -70,7 +70,8 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
                     for (float j0 : array_j0) {
 
                         std::set<float> array_j1;
-                        for (float j1 = std::abs(l1 - state.getS(1)); j1 <= l1 + state.getS(1); ++j1) {
+                        for (float j1 = std::abs(l1 - state.getS(1)); j1 <= l1 + state.getS(1);
+                             ++j1) {
                             if (std::abs(j1 - state.getJ(1)) < 2) {
                                 array_j1.insert(j1);
                             }
@@ -157,7 +158,7 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                         if (state_col.getL(0) < n0 - 1) {
                             array_l0.push_back(state_col.getL(0) + 1);
                         }
-                        if (state_col.getL(0) > 0) {
+                        if (state_col.getL(0) > 0 && state_col.getL(0) - 1 < n0) {
                             array_l0.push_back(state_col.getL(0) - 1);
                         }
                     } else if (state_row.getL(0) + 2 == state_col.getL(0) &&
@@ -174,7 +175,7 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                             if (state_col.getL(1) < n1 - 1) {
                                 array_l1.push_back(state_col.getL(1) + 1);
                             }
-                            if (state_col.getL(1) > 0) {
+                            if (state_col.getL(1) > 0 && state_col.getL(1) - 1 < n1) {
                                 array_l1.push_back(state_col.getL(1) - 1);
                             }
                         } else if (state_row.getL(1) + 2 == state_col.getL(1) &&
-- 
2.43.0


From 821b62276e4eee002d31e36e02a8b548c8b57456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:01 +0000
Subject: [PATCH 71/95] fix: the rank-two part of the diamagnetic interaction
 was lost for elements that also have a rank-zero part

---
 pairinteraction/HamiltonianOne.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index 2a8a45b..bce975a 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -276,8 +276,10 @@ void HamiltonianOne<Scalar>::build() {
             if (diamagnetism && (exist_B_0 || exist_B_1) &&
                 selectionRulesMultipole(state_row, state_col, 0, 0)) {
                 size_diamagnetism_00++;
-            } else if (diamagnetism && (exist_B_0 || exist_B_1) &&
-                       selectionRulesMultipole(state_row, state_col, 2, 0)) {
+            }
+
+            if (diamagnetism && (exist_B_0 || exist_B_1) &&
+                selectionRulesMultipole(state_row, state_col, 2, 0)) {
                 size_diamagnetism_20++;
             } else if (diamagnetism && (exist_B_0 && exist_B_1) &&
                        selectionRulesMultipole(state_row, state_col, 2, 1)) {
@@ -376,8 +378,10 @@ void HamiltonianOne<Scalar>::build() {
                 if (std::abs(val) > tol) {
                     hamiltonian_diamagnetism_00.addEntries(state_row.idx, state_col.idx, val);
                 }
-            } else if (diamagnetism && (exist_B_0 || exist_B_1) &&
-                       selectionRulesMultipole(state_row, state_col, 2, 0)) {
+            }
+
+            if (diamagnetism && (exist_B_0 || exist_B_1) &&
+                selectionRulesMultipole(state_row, state_col, 2, 0)) {
                 double val = matrix_elements.getDiamagnetism(state_row, state_col, 2);
                 if (std::abs(val) > tol) {
                     hamiltonian_diamagnetism_20.addEntries(state_row.idx, state_col.idx, val);
-- 
2.43.0


From d17b479747ab428850ff4d87a267672b470ff052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:44 +0000
Subject: [PATCH 72/95] fix: eigenvectors of decoupled parts of a matrix with
 equal energies must not be mixed, which broke pair states with symmetries

---
 pairinteraction/Hamiltonianmatrix.cpp | 81 +++++++++++++++++++++++++--
 1 file changed, 77 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 33131ae..97e7b6c 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -24,7 +24,10 @@
 #include <Eigen/Eigenvalues>
 #include <fmt/format.h>
 
+#include <algorithm>
+#include <numeric>
 #include <stdexcept>
+#include <utility>
 
 template <typename Scalar>
 Hamiltonianmatrix<Scalar>::Hamiltonianmatrix() = default;
@@ -267,13 +270,83 @@ Hamiltonianmatrix<Scalar>::getBlock(const std::vector<ptrdiff_t> &indices) {
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::diagonalize() {
     if (this->num_basisvectors() > 1) { // NOLINT
+        // Find the blocks of the matrix (only the lower triangle has to be given). The blocks are
+        // diagonalized one by one in order to not mix eigenvectors of the same energy that belong
+        // to different blocks, e.g. to different momenta.
+        Eigen::SparseMatrix<Scalar> mat = this->entries();
+        std::vector<Eigen::Index> root(mat.cols());
+        std::iota(root.begin(), root.end(), 0);
+        auto find_root = [&root](Eigen::Index idx) {
+            while (root[idx] != idx) {
+                root[idx] = root[root[idx]];
+                idx = root[idx];
+            }
+            return idx;
+        };
+        for (int k = 0; k < mat.outerSize(); ++k) {
+            for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(mat, k); triple;
+                 ++triple) {
+                if (triple.row() >= triple.col() && triple.value() != Scalar(0)) {
+                    root[find_root(triple.row())] = find_root(triple.col());
+                }
+            }
+        }
+        std::vector<std::vector<Eigen::Index>> blocks(mat.cols());
+        for (Eigen::Index idx = 0; idx < mat.cols(); ++idx) {
+            blocks[find_root(idx)].push_back(idx);
+        }
+
         // diagonalization
-        Eigen::SelfAdjointEigenSolver<Eigen::MatrixX<Scalar>> eigensolver(
-            Eigen::MatrixX<Scalar>(this->entries()));
+        std::vector<std::pair<double, std::vector<Eigen::Triplet<Scalar>>>> eigenpairs;
+        eigenpairs.reserve(mat.cols());
+        std::vector<Eigen::Index> position(mat.cols());
+        for (const auto &block : blocks) {
+            if (block.empty()) {
+                continue;
+            }
+
+            int n = block.size();
+            Eigen::MatrixX<Scalar> mat_block = Eigen::MatrixX<Scalar>::Zero(n, n);
+            for (int idx = 0; idx < n; ++idx) {
+                position[block[idx]] = idx;
+            }
+            for (int idx = 0; idx < n; ++idx) {
+                for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(mat, block[idx]);
+                     triple; ++triple) {
+                    if (triple.row() >= triple.col() && triple.value() != Scalar(0)) {
+                        mat_block(position[triple.row()], idx) = triple.value();
+                    }
+                }
+            }
+
+            Eigen::SelfAdjointEigenSolver<Eigen::MatrixX<Scalar>> eigensolver(mat_block);
+
+            for (int idx = 0; idx < n; ++idx) {
+                eigenpairs.emplace_back(eigensolver.eigenvalues()[idx],
+                                        std::vector<Eigen::Triplet<Scalar>>());
+                for (int row = 0; row < n; ++row) {
+                    eigenpairs.back().second.emplace_back(block[row], 0,
+                                                          eigensolver.eigenvectors()(row, idx));
+                }
+            }
+        }
+
+        // sort the eigenpairs by the eigenvalues
+        std::stable_sort(eigenpairs.begin(), eigenpairs.end(),
+                         [](const auto &a, const auto &b) { return a.first < b.first; });
 
         // eigenvalues and eigenvectors
-        Eigen::VectorX<double> evals = eigensolver.eigenvalues();
-        Eigen::SparseMatrix<Scalar> evecs = eigensolver.eigenvectors().sparseView(1e-4, 0.5);
+        Eigen::VectorX<double> evals(mat.cols());
+        std::vector<Eigen::Triplet<Scalar>> triplets_evecs;
+        for (size_t idx = 0; idx < eigenpairs.size(); ++idx) {
+            evals[idx] = eigenpairs[idx].first;
+            for (const auto &triple : eigenpairs[idx].second) {
+                triplets_evecs.emplace_back(triple.row(), idx, triple.value());
+            }
+        }
+        Eigen::SparseMatrix<Scalar> evecs(mat.cols(), mat.cols());
+        evecs.setFromTriplets(triplets_evecs.begin(), triplets_evecs.end());
+        evecs.prune(Scalar(1e-4), 0.5);
 
         this->entries().setZero();
         this->entries().reserve(evals.size());
-- 
2.43.0


From 76368c55765a8cce3deccc551d4edcb04f4d1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 73/95] fix: damaged parameter files in the cache of the
 pipeline must not terminate the program

---
 pairinteraction/HamiltonianOne.cpp | 11 +++++++----
 pairinteraction/HamiltonianTwo.cpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index bce975a..fe63d21 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -583,10 +583,13 @@ void HamiltonianOne<Scalar>::build() {
         bool is_existing = false;
         if (fs::exists(path_mat)) {
             if (fs::exists(path_json)) {
-                Configuration params_loaded;
-                params_loaded.load_from_json(path_json.string());
-                if (conf == params_loaded) {
-                    is_existing = true;
+                try {
+                    Configuration params_loaded;
+                    params_loaded.load_from_json(path_json.string());
+                    is_existing = conf == params_loaded;
+                } catch (std::exception &e) { // damaged file, the matrix is calculated again
+#pragma omp critical(textoutput)
+                    std::cerr << e.what() << std::endl;
                 }
             }
         }
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index a3136de..af3c734 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -800,10 +800,13 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
             bool is_existing = false;
             if (fs::exists(path_mat)) {
                 if (fs::exists(path_json)) {
-                    Configuration params_loaded;
-                    params_loaded.load_from_json(path_json.string());
-                    if (conf == params_loaded) {
-                        is_existing = true;
+                    try {
+                        Configuration params_loaded;
+                        params_loaded.load_from_json(path_json.string());
+                        is_existing = conf == params_loaded;
+                    } catch (std::exception &e) { // damaged file, the matrix is calculated again
+#pragma omp critical(textoutput)
+                        std::cerr << e.what() << std::endl;
                     }
                 }
             }
-- 
2.43.0


From 54f45ada1faedc6de9776194434ce389a28ec8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 74/95] fix: cached matrices that do not fit to the basis are
 calculated again

---
 pairinteraction/HamiltonianOne.cpp    | 7 ++++++-
 pairinteraction/HamiltonianTwo.cpp    | 8 +++++++-
 pairinteraction/Hamiltonianmatrix.cpp | 6 ++++++
 pairinteraction/Hamiltonianmatrix.hpp | 1 +
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index fe63d21..a8eb45c 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -604,7 +604,12 @@ void HamiltonianOne<Scalar>::build() {
 
         // calculate Hamiltonian if "is_existing" is false
         std::shared_ptr<Hamiltonianmatrix<Scalar>> mat;
-        if (!is_existing || !totalmatrix.load(path_mat.string())) {
+        if (is_existing) {
+            // a matrix that does not fit to the basis has been damaged
+            is_existing = totalmatrix.load(path_mat.string()) &&
+                totalmatrix.hasDimensions(this->basis->dim());
+        }
+        if (!is_existing) {
 
             // --- Build matrix ---
             totalmatrix = hamiltonian_energy - hamiltonian_electricMomentum_0 * E_0 +
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index af3c734..5995604 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -819,7 +819,13 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
             // === Build and diagonalize total matrix if not existent ===
             Hamiltonianmatrix<Scalar> totalmatrix;
 
-            if (!is_existing || !totalmatrix.load(path_mat.string())) {
+            if (is_existing) {
+                // a matrix that does not fit to the basis has been damaged
+                is_existing = totalmatrix.load(path_mat.string()) &&
+                    totalmatrix.hasDimensions(hamiltonian_one1->get(single_idx)->num_coordinates() *
+                                              hamiltonian_one2->get(single_idx)->num_coordinates());
+            }
+            if (!is_existing) {
 
                 // --- Combine single atom matrices ---
                 if (nSteps_two == nSteps_one) {
diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 97e7b6c..6829ca9 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -75,6 +75,12 @@ size_t Hamiltonianmatrix<Scalar>::num_coordinates() const {
     return basis_.rows();
 }
 
+template <typename Scalar>
+bool Hamiltonianmatrix<Scalar>::hasDimensions(size_t num_coordinates) const {
+    return this->num_coordinates() == num_coordinates && entries_.rows() == basis_.cols() &&
+        entries_.cols() == basis_.cols();
+}
+
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::addBasis(idx_t row, idx_t col, Scalar val) {
     triplets_basis.emplace_back(row, col, val);
diff --git a/pairinteraction/Hamiltonianmatrix.hpp b/pairinteraction/Hamiltonianmatrix.hpp
index e900f46..e5bd5db 100644
--- a/pairinteraction/Hamiltonianmatrix.hpp
+++ b/pairinteraction/Hamiltonianmatrix.hpp
@@ -77,6 +77,7 @@ public:
     const Eigen::SparseMatrix<Scalar> &basis() const;
     size_t num_basisvectors() const;
     size_t num_coordinates() const;
+    bool hasDimensions(size_t num_coordinates) const;
     void addBasis(idx_t row, idx_t col, Scalar val);
     void addEntries(idx_t row, idx_t col, Scalar val);
     void compress(size_t nBasis, size_t nCoordinates);
-- 
2.43.0


From 85de7bd728b61b55bbc4edebd613e67a20cfb95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 75/95] fix: matrices of other parameters in the cache must not
 be believed after an interruption

---
 pairinteraction/HamiltonianOne.cpp | 2 ++
 pairinteraction/HamiltonianTwo.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index a8eb45c..b3755b7 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -596,6 +596,8 @@ void HamiltonianOne<Scalar>::build() {
 
         // Create .json file if "is_existing" is false
         if (!is_existing) {
+            // a matrix of other parameters must not remain if the calculation is interrupted
+            fs::remove(path_mat);
             conf.save_to_json(path_json.string());
         }
 
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index 5995604..bc6815e 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -813,6 +813,8 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
 
             // Create .json file if "is_existing" is false
             if (!is_existing) {
+                // a matrix of other parameters must not remain if the calculation is interrupted
+                fs::remove(path_mat);
                 conf.save_to_json(path_json.string());
             }
 
-- 
2.43.0


From 4375e243f7ee9c83374c3a4d8b2bc3e008547343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:25 +0000
Subject: [PATCH 76/95] fix: pair states were lost if the energy cutoff was
 applied by several threads

---
 pairinteraction/HamiltonianTwo.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index bc6815e..f917f01 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -357,8 +357,16 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
 
 #pragma omp parallel for
     for (int i = 0; i < nSteps_one_i; ++i) {
+        // the elements of a std::vector<bool> cannot be set by several threads at the same time
+        std::vector<bool> necessary_step(necessary_tmp.size(), false);
         energycutoff(*(hamiltonian_one1->get(i)), *(hamiltonian_one2->get(i)), deltaE,
-                     necessary_tmp);
+                     necessary_step);
+#pragma omp critical(energycutoff)
+        for (size_t idx = 0; idx < necessary_step.size(); ++idx) {
+            if (necessary_step[idx]) {
+                necessary_tmp[idx] = true;
+            }
+        }
     }
 
     // Apply restrictions due to symmetries
-- 
2.43.0


From 1fdffd5ea834608c8f32b1d86ff0b1f1e6130b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:03 +0000
Subject: [PATCH 77/95] fix: steps with the same parameters and tables that are
 missing terminated parallel calculations

---
 pairinteraction/HamiltonianOne.cpp | 112 ++++++++++++++--------------
 pairinteraction/HamiltonianTwo.cpp | 115 +++++++++++++++--------------
 2 files changed, 114 insertions(+), 113 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index b3755b7..ac889dd 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -498,74 +498,74 @@ void HamiltonianOne<Scalar>::build() {
         conf["By"] << By;
         conf["Bz"] << Bz;
 
-        // === Create table if necessary ===
-        std::stringstream query;
-        std::string spacer;
-
-        if (flag_perhapsmissingtable) {
-            query << "CREATE TABLE IF NOT EXISTS cache_one (uuid text NOT NULL PRIMARY KEY, "
-                     "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
-                     "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
-            for (auto p : conf) {
-                query << ", " << p.first << " text";
-            }
-            query << ", UNIQUE (";
-            for (auto p : conf) {
-                query << spacer << p.first;
-                spacer = ", ";
-            }
-            query << "));";
-
-            flag_perhapsmissingtable = false;
-
-#pragma omp critical(database)
-            stmt.exec(query.str());
-        }
-
         // === Get uuid as filename === // TODO put code in its own method
         std::string uuid;
-        spacer = "";
-        query.str(std::string());
-        query << "SELECT uuid FROM cache_one WHERE ";
-        for (auto p : conf) {
-            query << spacer << p.first << "='" << p.second.str() << "'";
-            spacer = " AND ";
-        }
-        query << ";";
 
+        // The table has to be created before any thread reads it, and an entry that is missing must
+        // not be added by several threads
 #pragma omp critical(database)
         {
-            sqlite::statement stmt(db, query.str());
-            stmt.prepare();
-            if (stmt.step()) {
-                uuid = stmt.get<std::string>(0);
-            }
-        }
+            std::stringstream query;
+            std::string spacer;
+
+            // --- Create table if necessary ---
+            if (flag_perhapsmissingtable) {
+                query << "CREATE TABLE IF NOT EXISTS cache_one (uuid text NOT NULL PRIMARY KEY, "
+                         "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
+                         "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
+                for (auto p : conf) {
+                    query << ", " << p.first << " text";
+                }
+                query << ", UNIQUE (";
+                for (auto p : conf) {
+                    query << spacer << p.first;
+                    spacer = ", ";
+                }
+                query << "));";
 
-        if (!uuid.empty()) {
-            query.str(std::string());
-            query << "UPDATE cache_one SET accessed = CURRENT_TIMESTAMP WHERE uuid = '" << uuid
-                  << "';";
-#pragma omp critical(database)
-            stmt.exec(query.str()); // TODO check whether this slows down the program
+                stmt.exec(query.str());
 
-        } else {
-            boost::uuids::uuid u = generator();
-            boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+                flag_perhapsmissingtable = false;
+            }
 
+            // --- Search for the entry ---
+            spacer = "";
             query.str(std::string());
-            query << "INSERT INTO cache_one (uuid";
+            query << "SELECT uuid FROM cache_one WHERE ";
             for (auto p : conf) {
-                query << ", " << p.first;
+                query << spacer << p.first << "='" << p.second.str() << "'";
+                spacer = " AND ";
             }
-            query << ") values ( '" << uuid << "'";
-            for (auto p : conf) {
-                query << ", "
-                      << "'" << p.second.str() << "'";
+            query << ";";
+
+            {
+                sqlite::statement stmt(db, query.str());
+                stmt.prepare();
+                if (stmt.step()) {
+                    uuid = stmt.get<std::string>(0);
+                }
             }
-            query << ");";
-#pragma omp critical(database)
-            stmt.exec(query.str());
+
+            // --- Update or add the entry ---
+            query.str(std::string());
+            if (!uuid.empty()) {
+                query << "UPDATE cache_one SET accessed = CURRENT_TIMESTAMP WHERE uuid = '" << uuid
+                      << "';";
+            } else {
+                boost::uuids::uuid u = generator();
+                boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+
+                query << "INSERT INTO cache_one (uuid";
+                for (auto p : conf) {
+                    query << ", " << p.first;
+                }
+                query << ") values ( '" << uuid << "'";
+                for (auto p : conf) {
+                    query << ", " << "'" << p.second.str() << "'";
+                }
+                query << ");";
+            }
+            stmt.exec(query.str()); // TODO check whether this slows down the program
         }
 
         // === Check existence of files === // TODO put code in its own method
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index f917f01..00b08ba 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -723,74 +723,75 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
             conf["reflection"] << ((sym.reflection == NA) ? "" : std::to_string(sym.reflection));
             conf["rotation"] << ((sym.rotation == NA) ? "" : std::to_string(sym.rotation));
 
-            // === Create table if necessary ===
-            std::stringstream query;
-            std::string spacer;
-
-            if (flag_perhapsmissingtable) {
-                query << "CREATE TABLE IF NOT EXISTS cache_two (uuid text NOT NULL PRIMARY KEY, "
-                         "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
-                         "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
-                for (auto p : conf) {
-                    query << ", " << p.first << " text";
-                }
-                query << ", UNIQUE (";
-                for (auto p : conf) {
-                    query << spacer << p.first;
-                    spacer = ", ";
-                }
-                query << "));";
-
-#pragma omp critical(database)
-                stmt.exec(query.str());
-
-                flag_perhapsmissingtable = false;
-            }
-
-            // === Get uuid as filename ===
+            // === Get uuid as filename === // TODO put code in its own method
             std::string uuid;
-            query.str(std::string());
-            spacer = "";
-            query << "SELECT uuid FROM cache_two WHERE ";
-            for (auto p : conf) {
-                query << spacer << p.first << "='" << p.second.str() << "'";
-                spacer = " AND ";
-            }
-            query << ";";
 
+            // The table has to be created before any thread reads it, and an entry that is missing
+            // must not be added by several threads
 #pragma omp critical(database)
             {
-                sqlite::statement stmt(db, query.str());
-                stmt.prepare();
-                if (stmt.step()) {
-                    uuid = stmt.get<std::string>(0);
-                }
-            }
+                std::stringstream query;
+                std::string spacer;
+
+                // --- Create table if necessary ---
+                if (flag_perhapsmissingtable) {
+                    query
+                        << "CREATE TABLE IF NOT EXISTS cache_two (uuid text NOT NULL PRIMARY KEY, "
+                           "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
+                           "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
+                    for (auto p : conf) {
+                        query << ", " << p.first << " text";
+                    }
+                    query << ", UNIQUE (";
+                    for (auto p : conf) {
+                        query << spacer << p.first;
+                        spacer = ", ";
+                    }
+                    query << "));";
 
-            if (!uuid.empty()) {
-                query.str(std::string());
-                query << "UPDATE cache_two SET accessed = CURRENT_TIMESTAMP WHERE uuid = '" << uuid
-                      << "';";
-#pragma omp critical(database)
-                stmt.exec(query.str()); // TODO check whether this slows down the program
+                    stmt.exec(query.str());
 
-            } else {
-                boost::uuids::uuid u = generator();
-                boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+                    flag_perhapsmissingtable = false;
+                }
 
+                // --- Search for the entry ---
+                spacer = "";
                 query.str(std::string());
-                query << "INSERT INTO cache_two (uuid";
+                query << "SELECT uuid FROM cache_two WHERE ";
                 for (auto p : conf) {
-                    query << ", " << p.first;
+                    query << spacer << p.first << "='" << p.second.str() << "'";
+                    spacer = " AND ";
                 }
-                query << ") values ( '" << uuid << "'";
-                for (auto p : conf) {
-                    query << ", "
-                          << "'" << p.second.str() << "'";
+                query << ";";
+
+                {
+                    sqlite::statement stmt(db, query.str());
+                    stmt.prepare();
+                    if (stmt.step()) {
+                        uuid = stmt.get<std::string>(0);
+                    }
                 }
-                query << ");";
-#pragma omp critical(database)
-                stmt.exec(query.str());
+
+                // --- Update or add the entry ---
+                query.str(std::string());
+                if (!uuid.empty()) {
+                    query << "UPDATE cache_two SET accessed = CURRENT_TIMESTAMP WHERE uuid = '"
+                          << uuid << "';";
+                } else {
+                    boost::uuids::uuid u = generator();
+                    boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+
+                    query << "INSERT INTO cache_two (uuid";
+                    for (auto p : conf) {
+                        query << ", " << p.first;
+                    }
+                    query << ") values ( '" << uuid << "'";
+                    for (auto p : conf) {
+                        query << ", " << "'" << p.second.str() << "'";
+                    }
+                    query << ");";
+                }
+                stmt.exec(query.str()); // TODO check whether this slows down the program
             }
 
             // === Check existence of files ===
-- 
2.43.0


From 053cb17d6667ef4dcc5826175933d3388de4f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:49 +0000
Subject: [PATCH 78/95] fix: pair calculations without restriction of the pair
 energies failed in the Python interface

---
 pairinteraction_gui/pipy/config.py | 19 +++++++++++++++++++
 pairinteraction_gui/pipy_thread.py |  2 +-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index 8b6f17a..1b5bb20 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -404,6 +404,25 @@ class Config:
             self._energiesPair = list(E1 + E2)
         return self._energiesPair
 
+    def getEnergiesReference(self) -> "list[float]":
+        """Get the energies the results of a calculation are given relative to.
+
+        These are the energies which restrict the basis of a pair. If its basis is not restricted by energies, the
+        energies of the states without any E/B fields are used, so that the results depend on the parameters only.
+        """
+        if self.nAtoms() == 1:
+            return self.getEnergiesSingle()
+        energies = getattr(self, "_energiesPair", None) or self._getPair("_energies", None)
+        if energies is None:
+            from pairinteraction import pireal
+
+            species = [self.species(1), self.species(1 if self.useSameAtom() else 2)]
+            energies = [
+                pireal.StateOne(species[0], *qn[:4]).getEnergy() + pireal.StateOne(species[1], *qn[4:]).getEnergy()
+                for qn in self.qnumbersPair()
+            ]
+        return energies
+
     def toOutDictPair(self) -> "dict[str, Any]":
         """Get a dictionary with all the output parameters for one AtomOne."""
         output = {
diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 10eb90a..90d70b9 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -245,7 +245,7 @@ class PipyThread(QThread):
         pirealcomplex = "pireal" if config.isReal() else "picomplex"
         if not os.path.exists(filename) or not os.path.exists(filename_json):
             atom.calcEnergies()
-            energies0 = config.getEnergiesPair() if atom.nAtoms == 2 else config.getEnergiesSingle()
+            energies0 = config.getEnergiesReference()
             data = {
                 "energies": atom.energies - np.mean(energies0),
                 "basis": atom.vectors,
-- 
2.43.0


From f7f48304b99244b2ec8cc1e47f7fefbf1f3d9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:56 +0000
Subject: [PATCH 79/95] fix: aborting a calculation of the Python interface
 that has not started failed

---
 pairinteraction_gui/pipy_thread.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 90d70b9..0c797e0 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -91,6 +91,9 @@ class PipyThread(QThread):
         # FIXME, in some instances wait will wait forever.
         # For some reason using a QDeadlineTimer also did not work
 
+        if self._kwargs is None:  # nothing has been started
+            return
+
         # delete files, that where changed during pool.terminate was called
         for real_complex in ["real", "complex"]:
             pathCacheMatrix = os.path.join(self.params["pathCache"], f"cache_matrix_{real_complex}_new")
-- 
2.43.0


From ec4c8e711457b2ba8c99be8e4e99079093d52946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:56 +0000
Subject: [PATCH 80/95] fix: the number of processes could not be raised from
 one in the Python interface

---
 pairinteraction_gui/pipy_thread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 0c797e0..9491fe4 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -56,7 +56,7 @@ class PipyThread(QThread):
 
     def killPool(self):
         if self._pool == self.SEQUENTIAL:
-            pass
+            self._pool = None
         elif self._pool is not None:
             self._pool.terminate()
             self._pool.join()
-- 
2.43.0


From 703a5ec55605af4d35a38f202c15a23600a4da6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:56 +0000
Subject: [PATCH 81/95] fix: momenta of strontium pairs are passed on as
 floats, integers of numpy made the calculation fail

---
 pairinteraction_gui/pipy_thread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 9491fe4..a510eb8 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -368,7 +368,7 @@ def params_to_settings(params):
                         "WARNING: conserveM but not only plot same symmetry sector. "
                         "no deltaMSingle, deltaJSingle or deltaLSingle given, failed to determine allowed momenta. "
                     )
-                allowedMomenta = list({m1 + m2 for m1 in allowed_m1 for m2 in allowed_m2})
+                allowedMomenta = list({float(m1 + m2) for m1 in allowed_m1 for m2 in allowed_m2})
             else:
                 if config.get("zerotheta", False):
                     allowedMomenta = [config["m1"] + config["m2"]]
-- 
2.43.0


From 5d3ec5a2733468346f975115a39cc65a431f180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:57 +0000
Subject: [PATCH 82/95] fix: symmetry blocks were missing if atoms in different
 states share their basis

---
 pairinteraction_gui/pipy_thread.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index a510eb8..0a64b9c 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -368,6 +368,10 @@ def params_to_settings(params):
                         "WARNING: conserveM but not only plot same symmetry sector. "
                         "no deltaMSingle, deltaJSingle or deltaLSingle given, failed to determine allowed momenta. "
                     )
+                if config.get("samebasis", False):  # each atom has the states of both
+                    allowed_m1 = allowed_m2 = np.arange(
+                        min(*allowed_m1, *allowed_m2), max(*allowed_m1, *allowed_m2) + 1
+                    )
                 allowedMomenta = list({float(m1 + m2) for m1 in allowed_m1 for m2 in allowed_m2})
             else:
                 if config.get("zerotheta", False):
-- 
2.43.0


From 0460cd0f8d699ad9072f393b724441e9f559d414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:57 +0000
Subject: [PATCH 83/95] fix: an interruption left damaged results that were
 believed if their parameters had been saved before

---
 pairinteraction_gui/pipy_thread.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 0a64b9c..334cca1 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -259,8 +259,11 @@ class PipyThread(QThread):
                 f"{pirealcomplex}: {ip+1}. Hamiltonian diagonalized ({dimension}x{dimension})"
                 f"({multiprocessing.current_process().name})"
             )
-            with open(filename, "wb") as f:
+            # only complete files get their final names
+            filename_tmp = f"{filename}.{os.getpid()}.tmp"
+            with open(filename_tmp, "wb") as f:
                 pickle.dump(data, f)
+            os.replace(filename_tmp, filename)
             with open(filename_json, "w") as f:
                 json.dump(data["params"], f, indent=4)
         else:
-- 
2.43.0


From 3f8ac3b1d8b3b57443e8663e85dc477dbc9da7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:04 +0000
Subject: [PATCH 84/95] fix: leaving an energy cutoff of the window empty
 raised an exception

---
 pairinteraction_gui/guiadditions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/guiadditions.py b/pairinteraction_gui/guiadditions.py
index 2307276..7c20917 100644
--- a/pairinteraction_gui/guiadditions.py
+++ b/pairinteraction_gui/guiadditions.py
@@ -159,8 +159,11 @@ class DoubledeltaValidator(QtGui.QDoubleValidator):
         return status
 
     def fixup(self, s):
-        if locale.atof(s) < 0:
-            return "-1"
+        try:
+            if locale.atof(s) < 0:
+                return "-1"
+        except ValueError:  # incomplete input, e.g. an empty field
+            pass
         return "0"
 
 
-- 
2.43.0


From 29d089b2d733ecca4a61af8d6472fe890bbadad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:47 +0000
Subject: [PATCH 85/95] fix: opening a configuration did not restore all its
 settings

The pair limits were cut to the previous limits and the symmetries were
overwritten by those of a mixture of the previous and the opened settings.
---
 pairinteraction_gui/app.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/app.py b/pairinteraction_gui/app.py
index dd6c382..b51aa65 100644
--- a/pairinteraction_gui/app.py
+++ b/pairinteraction_gui/app.py
@@ -1032,7 +1032,9 @@ class MainWindow(QtWidgets.QMainWindow):
         with open(path) as f:
             params = json.load(f)
             prio_keys = ["species1", "species2"]  # first set species, to adapt the allowed j and m values
-            for k in prio_keys + list(params.keys()):
+            # The allowed values of some settings and the automatically chosen symmetries depend on other settings,
+            # so that only the second pass is able to set everything
+            for k in prio_keys + list(params.keys()) * 2:
                 self.systemdict[k] = Quantity(params[k][0], params[k][1])
 
     def loadSettingsPlotter(self, path):
-- 
2.43.0


From e7060835ad3dce70ec6c7e1103da7d70d74916ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:47 +0000
Subject: [PATCH 86/95] fix: changing the species turned the wildcard for the
 quantum numbers j and m into -98.5

---
 pairinteraction_gui/app.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pairinteraction_gui/app.py b/pairinteraction_gui/app.py
index b51aa65..0dfbfb2 100644
--- a/pairinteraction_gui/app.py
+++ b/pairinteraction_gui/app.py
@@ -2640,6 +2640,8 @@ class MainWindow(QtWidgets.QMainWindow):
                 spinbox = getattr(self.ui, f"spinbox_{system}_{q}{number}")
                 value = spinbox.value()
                 spinbox.setDecimals(0 if s % 1 == 0 else 1)
+                if system == "plot" and value == PLOT_ALL:
+                    continue
                 # Minimum and Maximum for m are handled via setDecimals
                 if spinbox.minimum() >= 0:
                     spinbox.setMinimum(s % 1)
-- 
2.43.0


From c185ac2bc2ae94aafc21da37ea68029db253c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:47 +0000
Subject: [PATCH 87/95] fix: calculations were refused because of quantum
 numbers which are not used

---
 pairinteraction_gui/app.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pairinteraction_gui/app.py b/pairinteraction_gui/app.py
index 0dfbfb2..dfd7236 100644
--- a/pairinteraction_gui/app.py
+++ b/pairinteraction_gui/app.py
@@ -2686,6 +2686,8 @@ class MainWindow(QtWidgets.QMainWindow):
             err = True
         if not ((j + s) % 1 == 0 and (j - s) % 1 == 0) and not qns_is_plot_all[2]:
             err = True
+        if system == "plot" and not self.ui.radiobutton_plot_overlapDefined.isChecked():
+            err = False  # the quantum numbers are not used
         self.invalidQuantumnumbers[name] = err
 
         msg = ", ".join([k for k, v in self.invalidQuantumnumbers.items() if v])
-- 
2.43.0


From efdafbef78572db6c864da629a6a0ad23e8cb932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:47 +0000
Subject: [PATCH 88/95] fix: the limit of the principal quantum number for
 Whittaker functions was not applied to the second atom

---
 pairinteraction_gui/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/app.py b/pairinteraction_gui/app.py
index dfd7236..958cdcb 100644
--- a/pairinteraction_gui/app.py
+++ b/pairinteraction_gui/app.py
@@ -2750,7 +2750,7 @@ class MainWindow(QtWidgets.QMainWindow):
 
         elif (
             self.ui.radiobutton_system_missingWhittaker.isChecked()
-            and max(self.systemdict["n1"].magnitude, self.systemdict["n1"].magnitude)
+            and max(self.systemdict["n1"].magnitude, self.systemdict["n2"].magnitude)
             + max(self.systemdict["deltaNSingle"].magnitude, self.systemdict["deltaNPair"].magnitude)
             > 97
         ):
-- 
2.43.0


From aba38d8257916d93b0407d269ec5cb4627e7b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:12 +0000
Subject: [PATCH 89/95] fix: energies of states were looked up in the wrong
 rows of the stored overlaps

---
 pairinteraction_gui/pipy/atom.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index a642296..bfeb0cd 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -113,13 +113,15 @@ class Atom:
     def copy(self):
         raise NotImplementedError("This has to be implemented in the subclass")
 
-    def findQunumberIndex(self, qunumber):
+    def findQunumberIndex(self, qunumber, qunumbers=None):
         """Finding the index of a given quantum number in the list of basisStates.
 
         Parameters
         ----------
         qunumber : tuple
             Tuple of quantum numbers (N, L, J, M) or ((N1, L1, J1, M1), (N2, L2, J2, M2)) for two atoms.
+        qunumbers : list of tuples, optional
+            List to search instead of basisQunumbers.
 
         Returns
         -------
@@ -140,7 +142,7 @@ class Atom:
         qunumber = tuple(qunumber)
         if self.nAtoms > 1:
             qunumber = tuple(tuple(q) for q in qunumber)
-        return self.basisQunumbers.index(qunumber)
+        return (self.basisQunumbers if qunumbers is None else qunumbers).index(qunumber)
 
     def _createSystem(self):
         """Creating the actual pi.SystemOne or pi.SystemTwo object.
@@ -229,9 +231,11 @@ class Atom:
             raise ValueError("Energies have not been calculated yet. Call calcEnergies() first.")
 
         if self.overlaps is not None:
-            overlaps_all = self.overlaps
-            inds = [self.findQunumberIndex(qunumber) for qunumber in qunumbers]
-            overlaps = overlaps_all[inds, :]
+            # the rows of the overlaps correspond to allStates
+            if self.nAtoms == 2:
+                qunumbers = [tuple(zip(q[:4], q[4:])) if len(q) == 8 else q for q in qunumbers]
+            inds = [self.findQunumberIndex(qunumber, self.allQunumbers) for qunumber in qunumbers]
+            overlaps = self.overlaps[inds, :]
         elif self.nAtoms == 1:
             pi = pireal if self.config.isReal() else picomplex
             qunumbers = [(int(q[0]), int(q[1]), float(q[2]), float(q[3])) for q in qunumbers]
-- 
2.43.0


From 1c3530ef9e0044d4848ceeeffe311b14d8b392af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:12 +0000
Subject: [PATCH 90/95] fix: overlaps of a previous calculation were combined
 with energies in another order

---
 pairinteraction_gui/pipy/atom.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index bfeb0cd..b82205c 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -206,6 +206,7 @@ class Atom:
         else:
             self.sorted_inds = None
 
+        self.overlaps = None  # those of a previous calculation may be ordered differently
         if calc_overlaps:  # this is slow, so only do it if necessary
             self.overlaps = np.array([system.getOverlap(state) for state in self.allStates])
             if sort:
-- 
2.43.0


From b016759bee4014aa6103a48bc0735f38646b15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:12 +0000
Subject: [PATCH 91/95] fix: looking up the energy of a state failed if there
 is a single basis vector

---
 pairinteraction_gui/pipy/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index b82205c..c4e3e13 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -262,7 +262,7 @@ class Atom:
             energies.append(self.energies[inds[0]])
 
             overlap = overlap[inds]
-            if overlap[0] > 0.6 or overlap[0] / overlap[1] > 1.5:
+            if len(overlap) == 1 or overlap[0] > 0.6 or overlap[0] / overlap[1] > 1.5:
                 pass
             elif sum(overlap[:2]) > 2.1 / 3:
                 if abs(self.energies[inds[0]] - self.energies[inds[1]]) > 1e-4:
-- 
2.43.0


From 2678b51fb9470777d7fe8f97b45802a40c9c1b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:02 +0000
Subject: [PATCH 92/95] fix: vectors as results and sparse matrices as
 arguments could not be compiled

---
 pairinteraction/NumpyUtils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/NumpyUtils.hpp b/pairinteraction/NumpyUtils.hpp
index 1e3ad0d..39a1d1b 100644
--- a/pairinteraction/NumpyUtils.hpp
+++ b/pairinteraction/NumpyUtils.hpp
@@ -283,11 +283,11 @@ PyObject *convert(Eigen::Matrix<T, Eigen::Dynamic, 1> const &vec) {
  */
 template <view_or_copy v, typename T>
 PyObject *convert(std::vector<T> &vec) {
-    return numpy::convert<v>(vec.data(), vec.data() + vec.size(), 1, {vec.size()});
+    return numpy::convert<v>(vec.data(), vec.data() + vec.size());
 }
 template <view_or_copy v, typename T>
 PyObject *convert(std::vector<T> const &vec) {
-    return numpy::convert<v>(vec.data(), vec.data() + vec.size(), 1, {vec.size()});
+    return numpy::convert<v>(vec.data(), vec.data() + vec.size());
 }
 
 /** \brief Create a Numpy array from a std::array
@@ -513,12 +513,12 @@ as(numpy::array ndarray) {
     auto scipy = make_unique_object(PyImport_ImportModule("scipy.sparse"));
     if (scipy == nullptr) {
         PyErr_Print();
-        return nullptr;
+        throw std::runtime_error("The module scipy.sparse could not be imported!");
     }
     auto csc_matrix = make_unique_object(PyObject_GetAttrString(scipy.get(), "csc_matrix"));
     if (csc_matrix == nullptr) {
         PyErr_Print();
-        return nullptr;
+        throw std::runtime_error("Scipy.sparse has no csc_matrix!");
     }
     if (!ndarray || !PyObject_IsInstance(ndarray, csc_matrix.get()))
         throw std::invalid_argument("The argument is not a valid csc_matrix!");
-- 
2.43.0


From 4ae0e2558384ec297100bdf555eda82845add6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:02 +0000
Subject: [PATCH 93/95] fix: every sparse matrix returned to Python leaked its
 memory

---
 pairinteraction/NumpyUtils.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pairinteraction/NumpyUtils.hpp b/pairinteraction/NumpyUtils.hpp
index 39a1d1b..7f58798 100644
--- a/pairinteraction/NumpyUtils.hpp
+++ b/pairinteraction/NumpyUtils.hpp
@@ -330,27 +330,32 @@ PyObject *sparse_impl(T &&sm) {
         // we cannot call makeCompressed here because sm might be const
         throw std::runtime_error("Sparse matrix is not compressed!");
 
-    numpy::array indptr =
-        numpy::convert<v>(sm.outerIndexPtr(), sm.outerIndexPtr() + sm.outerSize() + 1);
+    // The csc_matrix holds its own references to the arrays
+    auto make_unique_object = [](PyObject *o) {
+        return std::unique_ptr<PyObject, decltype(&Py_DecRef)>{o, &Py_DecRef};
+    };
 
-    numpy::array indices =
-        numpy::convert<v>(sm.innerIndexPtr(), sm.innerIndexPtr() + sm.nonZeros());
+    auto indptr = make_unique_object(
+        numpy::convert<v>(sm.outerIndexPtr(), sm.outerIndexPtr() + sm.outerSize() + 1));
 
-    numpy::array data = numpy::convert<v>(sm.valuePtr(), sm.valuePtr() + sm.nonZeros());
+    auto indices = make_unique_object(
+        numpy::convert<v>(sm.innerIndexPtr(), sm.innerIndexPtr() + sm.nonZeros()));
+
+    auto data = make_unique_object(
+        numpy::convert<v>(sm.valuePtr(), sm.valuePtr() + sm.nonZeros()));
 
     int num_rows = sm.rows();
     int num_cols = sm.cols();
 
     char object[] = "csc_matrix";
     char arglist[] = "(OOO)(ii)";
-    std::unique_ptr<PyObject, decltype(&Py_DecRef)> scipy{PyImport_ImportModule("scipy.sparse"),
-                                                          &Py_DecRef};
+    auto scipy = make_unique_object(PyImport_ImportModule("scipy.sparse"));
     if (scipy == nullptr) {
         PyErr_Print();
         return nullptr;
     }
-    PyObject *mat = PyObject_CallMethod(scipy.get(), object, arglist, data, indices, indptr,
-                                        num_rows, num_cols);
+    PyObject *mat = PyObject_CallMethod(scipy.get(), object, arglist, data.get(), indices.get(),
+                                        indptr.get(), num_rows, num_cols);
     if (mat == nullptr) {
         PyErr_Print();
         return nullptr;
-- 
2.43.0


From de2af0975080778c145d00bc12d827df5b67fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:02 +0000
Subject: [PATCH 94/95] fix: arrays without dimensions, of foreign byte order
 or with wide indices were misread

---
 pairinteraction/NumpyUtils.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/NumpyUtils.hpp b/pairinteraction/NumpyUtils.hpp
index 7f58798..946e723 100644
--- a/pairinteraction/NumpyUtils.hpp
+++ b/pairinteraction/NumpyUtils.hpp
@@ -400,6 +400,8 @@ void check_order_and_alignment(PyArrayObject *ndarray) {
         throw std::invalid_argument("The argument is not contiguous or has wrong storage order!");
     if ((flags & NPY_ARRAY_ALIGNED) == 0)
         throw std::invalid_argument("The argument is not not aligned!");
+    if (!PyArray_ISNOTSWAPPED(ndarray))
+        throw std::invalid_argument("The argument does not have the native byte order!");
 }
 
 /** \brief Deconstruct a numpy array for conversion to dense Eigen type
@@ -417,6 +419,8 @@ std::tuple<int, npy_intp *, Scalar *> as_dense_impl(numpy::array ndarray_) {
     PyArrayObject *ndarray = reinterpret_cast<PyArrayObject *>(ndarray_);
     internal::check_order_and_alignment(ndarray);
     int const nd = PyArray_NDIM(ndarray);
+    if (nd < 1)
+        throw std::range_error("Dimension mismatch.");
     npy_intp *dims = PyArray_SHAPE(ndarray);
     Scalar *data = reinterpret_cast<Scalar *>(PyArray_DATA(ndarray));
 
@@ -550,7 +554,9 @@ as(numpy::array ndarray) {
     StorageIndex *indices = reinterpret_cast<StorageIndex *>(PyArray_DATA(indices_));
     StorageIndex *indptr = reinterpret_cast<StorageIndex *>(PyArray_DATA(indptr_));
 
-    if (PyArray_TYPE(data_) != internal::py_type<Scalar>::type)
+    if (PyArray_TYPE(data_) != internal::py_type<Scalar>::type ||
+        !PyArray_EquivTypenums(PyArray_TYPE(indices_), internal::py_type<StorageIndex>::type) ||
+        !PyArray_EquivTypenums(PyArray_TYPE(indptr_), internal::py_type<StorageIndex>::type))
         throw std::invalid_argument("Type mismatch.");
 
     return Eigen::Map<T const>(rows, cols, *nnz, indptr, indices, data);
-- 
2.43.0


From b917be4d77c25065824e256d81331a778e2914f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:02 +0000
Subject: [PATCH 95/95] fix: the shape of an array could need more values than
 there are

---
 pairinteraction/NumpyUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/NumpyUtils.hpp b/pairinteraction/NumpyUtils.hpp
index 946e723..58ba297 100644
--- a/pairinteraction/NumpyUtils.hpp
+++ b/pairinteraction/NumpyUtils.hpp
@@ -111,8 +111,8 @@ void check_array_sanity(int len, int nd, std::initializer_list<T> dims) {
     if (nd != static_cast<int>(dims.size()))
         throw std::out_of_range("Dimension mismatch!");
 
-    if (len > std::accumulate(dims.begin(), dims.end(), int{1}, [](int a, int b) { return a * b; }))
-        throw std::out_of_range("Requested dimension is larger than data!");
+    if (len != std::accumulate(dims.begin(), dims.end(), int{1}, [](int a, int b) { return a * b; }))
+        throw std::out_of_range("Requested dimension does not match the data!");
 }
 
 /** \brief Create a Numpy view of an iterator (implementation)
-- 
2.43.0

