From f060f73a15af4d2854f1050d18d0dfa12b5f5969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:35 +0000
Subject: [PATCH 01/26] fix: evaluate the pseudo-Voigt profile for a vanishing
 Lorentzian width

---
 src/main/cxx/core/profiles.cxx | 32 ++++++++++++++++++++------------
 src/main/cxx/core/profiles.h   |  3 ++-
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/main/cxx/core/profiles.cxx b/src/main/cxx/core/profiles.cxx
index 0f295c4..367e97c 100644
--- a/src/main/cxx/core/profiles.cxx
+++ b/src/main/cxx/core/profiles.cxx
@@ -79,6 +79,24 @@ poly (const T &x, const T &h0, const T &h1, const T &h2, const T &h3,
   return h0 + x * (h1 + x * (h2 + x * (h3 + x * (h4 + x * (h5 + x * h6)))));
 }
 
+static real
+poly_w (const real &r)
+{
+  const real s = 1.0 - r;
+
+  return pow (
+      r * r * r * r * r
+          + s
+                * (0.07842 * r * r * r * r
+                   + s
+                         * (4.47163 * r * r * r
+                            + s
+                                  * (2.42843 * r * r
+                                     + s * (2.69296 * r + s)))),
+      0.2);
+  // transposed digits in T. Ida, M. Ando, H. Toraya (2000) ^^
+}
+
 static real
 poly_w_g (const real &r)
 {
@@ -138,18 +156,8 @@ poly_eta_p (const real &r)
 }
 
 especia::Pseudo_Voigt::Pseudo_Voigt (const real &b, const real &d)
-    : rho (c_g * b / d),
-      h (1.0
-         / pow (
-             1.0
-                 + rho
-                       * (0.07842
-                          + rho
-                                * (4.47163
-                                   + rho * (2.42843 + rho * (rho + 2.69296)))),
-             0.2)),
-      // transposed digits in T. Ida, M. Ando, H. Toraya (2000) ^^
-      gamma_l (d / h), gamma_g (gamma_l / c_g),
+    : g (c_g * b + d), rho (d / g), gamma_l (g * poly_w (rho)),
+      gamma_g (gamma_l / c_g), h (d / gamma_l),
       eta (h * (1.36603 - h * (0.47719 - h * 0.11116)))
 {
 }
diff --git a/src/main/cxx/core/profiles.h b/src/main/cxx/core/profiles.h
index 44b3ef0..52a330e 100644
--- a/src/main/cxx/core/profiles.h
+++ b/src/main/cxx/core/profiles.h
@@ -44,10 +44,11 @@ public:
   real operator() (const real &x) const;
 
 private:
+  const real g;
   const real rho;
-  const real h;
   const real gamma_l;
   const real gamma_g;
+  const real h;
   const real eta;
 
   static const real c_g;
-- 
2.43.0


From 712a4c9b1233331914980950d46edb90f90059f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:35 +0000
Subject: [PATCH 02/26] fix: ezip takes the number of lines to skip from its
 third argument

---
 src/main/cxx/apps/ezip.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/apps/ezip.cxx b/src/main/cxx/apps/ezip.cxx
index 1b09c7f..07be4c6 100644
--- a/src/main/cxx/apps/ezip.cxx
+++ b/src/main/cxx/apps/ezip.cxx
@@ -66,7 +66,7 @@ main (int argc, char *argv[])
 
       if (argc == 4)
         {
-          skip = especia::convert<natural> (string (argv[2]));
+          skip = especia::convert<natural> (string (argv[3]));
         }
 
       valarray<real> x;
-- 
2.43.0


From b8c19dd1e77061b793e9df756311803d80583a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:35 +0000
Subject: [PATCH 03/26] fix: reject a population that is not larger than the
 number of parents

---
 src/main/cxx/core/runner.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cxx/core/runner.h b/src/main/cxx/core/runner.h
index 056e5d3..e3d4ead 100644
--- a/src/main/cxx/core/runner.h
+++ b/src/main/cxx/core/runner.h
@@ -175,6 +175,13 @@ public:
     const natural stop_generation = parse_stop_generation ();
     const natural trace_modulus = parse_trace_modulus ();
 
+    if (parent_number == 0 or population_size <= parent_number)
+      {
+        throw invalid_argument ("especia::Runner::run() Error: an invalid "
+                                "parent number or population size was "
+                                "supplied");
+      }
+
     M model = M::parse (cin, cout);
 
     const Optimizer optimizer
-- 
2.43.0


From f3dbcd667333650c3f8e9c1ee0665a3652742c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 04/26] fix: report exceptions thrown while individuals are
 evaluated instead of aborting

---
 src/main/cxx/core/optimize.h | 61 +++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 7 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 3334019..28ea80d 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <exception>
 #include <limits>
 #include <thread>
 #include <valarray>
@@ -121,9 +122,12 @@ optimize (const F &f, const Constraint &constraint, natural n,
           const Compare &compare, const Tracing &tracer)
 {
   using std::accumulate;
+  using std::current_exception;
+  using std::exception_ptr;
   using std::exp;
   using std::numeric_limits;
   using std::partial_sort;
+  using std::rethrow_exception;
   using std::sqrt;
   using std::thread;
   using std::valarray;
@@ -183,18 +187,34 @@ optimize (const F &f, const Constraint &constraint, natural n,
         }
 #else // C++-11
       vector<thread> threads;
+      vector<exception_ptr> errors (population_size);
       threads.reserve (population_size);
       for (natural k = 0; k < population_size; ++k)
         {
-          threads.push_back (thread ([k, &f, &constraint, &x, n, &y] () {
-            y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
-          }));
+          threads.push_back (
+              thread ([k, &f, &constraint, &x, n, &y, &errors] () {
+                try
+                  {
+                    y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+                  }
+                catch (...)
+                  {
+                    errors[k] = current_exception ();
+                  }
+              }));
         }
       for (natural k = 0; k < population_size; ++k)
         {
           threads[k].join ();
           indexes[k] = k;
         }
+      for (natural k = 0; k < population_size; ++k)
+        {
+          if (errors[k])
+            {
+              rethrow_exception (errors[k]);
+            }
+        }
 #endif
       partial_sort (&indexes[0], &indexes[parent_number],
                     &indexes[population_size],
@@ -323,8 +343,11 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
           real z[])
 {
   using std::abs;
+  using std::current_exception;
+  using std::exception_ptr;
   using std::exp;
   using std::log;
+  using std::rethrow_exception;
   using std::sqrt;
   using std::thread;
   using std::valarray;
@@ -363,14 +386,38 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
             }
           }
 #else // C++-11
-          thread tp ([&f, &constraint, &p, n, &zp] () {
-            zp = f (&p[0], n) + constraint.cost (&p[0], n);
+          exception_ptr ep;
+          exception_ptr eq;
+          thread tp ([&f, &constraint, &p, n, &zp, &ep] () {
+            try
+              {
+                zp = f (&p[0], n) + constraint.cost (&p[0], n);
+              }
+            catch (...)
+              {
+                ep = current_exception ();
+              }
           });
-          thread tq ([&f, &constraint, &q, n, &zq] () {
-            zq = f (&q[0], n) + constraint.cost (&q[0], n);
+          thread tq ([&f, &constraint, &q, n, &zq, &eq] () {
+            try
+              {
+                zq = f (&q[0], n) + constraint.cost (&q[0], n);
+              }
+            catch (...)
+              {
+                eq = current_exception ();
+              }
           });
           tp.join ();
           tq.join ();
+          if (ep)
+            {
+              rethrow_exception (ep);
+            }
+          if (eq)
+            {
+              rethrow_exception (eq);
+            }
 #endif
           // Compute the rescaled global step size
           g[j] = c / sqrt (abs ((zp + zq) - (zx + zx)));
-- 
2.43.0


From 6cc78e7a502e9da3416722156e10e5ebe8bccebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 05/26] fix: reject model definitions without any section or
 with an unterminated section

---
 src/main/cxx/core/model.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index c714935..3bef524 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -632,6 +632,22 @@ private:
               return is;
             }
         }
+      else if (line.find (begin_of_section) != string::npos)
+        {
+          // The section is not terminated
+          is.setstate (ios_base::badbit | ios_base::failbit);
+          cerr << errmsg << synmsg << endl;
+
+          return is;
+        }
+
+    if (sections.empty ())
+      {
+        is.setstate (ios_base::badbit | ios_base::failbit);
+        cerr << errmsg << synmsg << endl;
+
+        return is;
+      }
 
     if (!st.bad () and st.eof ())
       {
-- 
2.43.0


From 29528ecbcdef25ca085cef3337ea1c48d933bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 06/26] fix: reject cyclic parameter references that do not
 return to their origin

---
 src/main/cxx/core/model.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 3bef524..d393555 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -673,6 +673,7 @@ private:
              i != section_name_map.end (); ++i)
           {
             const natural j = isc[i->second];
+            size_t steps = 0;
 
             while (!ref[j].empty ())
               {
@@ -680,7 +681,7 @@ private:
                   {
                     const natural k = isc[section_name_map[ref[j]]];
 
-                    if (j != k)
+                    if (j != k and ++steps < section_name_map.size ())
                       {
                         if (ref[k].empty ())
                           {
@@ -718,6 +719,7 @@ private:
           for (natural j = 0; j < Function::parameter_count (); ++j)
             {
               const natural k = i->second + j;
+              size_t steps = 0;
 
               while (!ref[k].empty ())
                 {
@@ -726,7 +728,7 @@ private:
                     {
                       const natural l = profile_name_map[ref[k]] + j;
 
-                      if (k != l)
+                      if (k != l and ++steps < profile_name_map.size ())
                         {
                           if (ref[l].empty ())
                             {
-- 
2.43.0


From 9ccdf03feebdd7157ba6f32231aef2c1ab7a8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 07/26] fix: keep two-column tables two-column and reject
 incomplete third columns

---
 src/main/cxx/core/dataio.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 4612c72..39aae6a 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -117,15 +117,16 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y,
         }
     }
 
-  if (n > 0 and is.eof ())
+  // The third column is either complete or missing
+  if (n > 0 and (w.empty () or w.size () == n) and is.eof ())
     {
       x.resize (n);
       y.resize (n);
-      z.resize (n);
+      z.resize (w.size ());
 
       copy (u.begin (), u.end (), &x[0]);
       copy (v.begin (), v.end (), &y[0]);
-      copy (w.begin (), w.end (), &z[0]);
+      copy (w.begin (), w.end (), begin (z));
 
       is.clear (is.rdstate () & ~ios_base::failbit);
     }
-- 
2.43.0


From 4921a26e995460655c89c443def130980d53ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 08/26] fix: foreach writes its target beside the source, never
 over files of the working directory

---
 src/main/scripts/foreach | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/scripts/foreach b/src/main/scripts/foreach
index a09e4a2..359edb0 100755
--- a/src/main/scripts/foreach
+++ b/src/main/scripts/foreach
@@ -18,7 +18,7 @@ shift
 for sourceFile in "${@}"
 do
     cp "${sourceFile}" "${sourceFile}.backup"
-    targetFile="$(basename "$sourceFile")"
+    targetFile="${sourceFile}.target"
     ${command} "${sourceFile}" "${targetFile}"
     mv "${targetFile}" "${sourceFile}"
 done
-- 
2.43.0


From 553e538c36b6982daeb447a8d1205236ec2681cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 09/26] fix: end the computation of uncertainties when the cost
 has no curvature

---
 src/main/cxx/core/optimize.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 28ea80d..26d97c6 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -346,6 +346,7 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
   using std::current_exception;
   using std::exception_ptr;
   using std::exp;
+  using std::isnormal; // C++11
   using std::log;
   using std::rethrow_exception;
   using std::sqrt;
@@ -434,8 +435,8 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
               c = c * 0.618;
             }
         }
-      while (a == 0.0
-             or b == 0.0); // the computation step is too small or too large
+      while ((a == 0.0 or b == 0.0) // the step is too small or too large
+             and isnormal (c)); // the objective function has a curvature
     }
   // Take the geometric mean to rescale the covariance matrix
   const real h = exp (g.apply (log).sum () / real (n));
-- 
2.43.0


From ec000267d5795cb190dac7263d56b29d5db0379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 10/26] fix: do not leave the bounds of the parameters for
 larger uncertainty steps

---
 src/main/cxx/core/optimize.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 26d97c6..99530a2 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -420,6 +420,9 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
               rethrow_exception (eq);
             }
 #endif
+          // Larger steps must not leave the domain of the objective function
+          const bool inside = not constraint.is_violated (&p[0], n)
+                              and not constraint.is_violated (&q[0], n);
           // Compute the rescaled global step size
           g[j] = c / sqrt (abs ((zp + zq) - (zx + zx)));
 
@@ -427,6 +430,10 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
           if (abs (0.5 * (zp + zq) - zx) < 0.5)
             {
               a = c;
+              if (not inside)
+                {
+                  break;
+                }
               c = c * 1.618;
             }
           else
-- 
2.43.0


From 088d612a6d0a90569aaf801252eb321cf4c152c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 11/26] fix: reject a resolution that is not positive and data
 in descending order

---
 src/main/cxx/core/section.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cxx/core/section.h b/src/main/cxx/core/section.h
index 8982258..290af89 100644
--- a/src/main/cxx/core/section.h
+++ b/src/main/cxx/core/section.h
@@ -223,6 +223,7 @@ private:
   {
     using std::ceil;
     using std::exp;
+    using std::runtime_error;
     using std::transform;
     using std::valarray;
 
@@ -232,6 +233,13 @@ private:
         const real h = 0.5 * center () / (r * kilo);
         // The data spacing.
         const real d = width () / (n - 1);
+
+        if (not(r > 0.0 and h > 0.0 and d > 0.0))
+          {
+            throw runtime_error (
+                "especia::section::convolute(): Error: the resolution and the "
+                "data spacing must be positive");
+          }
         // The super-sampling factor. Is greater than one, if the data spacing
         // is greater than the HWHM.
         const auto s = static_cast<natural> (ceil (d / h));
-- 
2.43.0


From caa155496a40ee97e8a22ca46453fbc511f3578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 12/26] fix: integrate integrands with algebraic tails over
 infinite ranges

The substitution u = exp(-x) turns the wings of damped lines into an
integrand which is singular at u = 0 and converges only logarithmically on
bisection: equivalent widths of damped lines were underestimated by up to
50 per cent.
---
 src/main/cxx/core/integrator.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/main/cxx/core/integrator.h b/src/main/cxx/core/integrator.h
index 886dbdf..12dcc44 100644
--- a/src/main/cxx/core/integrator.h
+++ b/src/main/cxx/core/integrator.h
@@ -92,8 +92,9 @@ public:
   /// Computes the value of the positive-infinite integral of a function, i.e.
   /// @f[ \int_{0}^{\infty} f(x) dx @f].
   ///
-  /// Makes the variable transformation @f$ u = \exp(-x) @f$ and computes
-  /// @f[ \int_{0}^{1} \frac{f(-\log(u))}{u} du @f].
+  /// Makes the variable transformation @f$ u = 1 / (1 + x) @f$ and computes
+  /// @f[ \int_{0}^{1} \frac{f((1 - u) / u)}{u^2} du @f], which is suitable for
+  /// integrands with exponential and with algebraic tails.
   ///
   /// @tparam F The integrand type.
   ///
@@ -110,11 +111,9 @@ public:
   integrate_positive_infinite (const F &f, T accuracy_goal = T (1.0E-6),
                                natural max_iteration = 100) const
   {
-    using std::log;
-
     return integrate (
         [&f] (T u) -> T {
-          return u > T (0.0) ? f (-log (u)) / u : T (0.0);
+          return u > T (0.0) ? f ((T (1.0) - u) / u) / (u * u) : T (0.0);
         }, // infinity maps to zero
         T (0.0), T (1.0), accuracy_goal, max_iteration);
   }
-- 
2.43.0


From 94350e0b86203a4f1d1dc9c0f7484236ecdf85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 13/26] fix: separate the columns of a table when a number
 fills the whole width

---
 src/main/cxx/core/dataio.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 39aae6a..8a6a277 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -157,10 +157,10 @@ especia::put (ostream &os, const valarray<real> &x, const valarray<real> &y,
           os.setf (ios_base::fixed, ios_base::floatfield);
           os << setw (w) << x[i];
           os.setf (ios_base::scientific, ios_base::floatfield);
-          os << setw (w) << y[i];
+          os << ' ' << setw (w - 1) << y[i];
           if (z.size () > 0)
             {
-              os << setw (w) << z[i];
+              os << ' ' << setw (w - 1) << z[i];
             }
           os << '\n';
         }
-- 
2.43.0


From cccdb62d514ee1a8508fbca1fc5e86b548642d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 14/26] fix: reject a heliocentric velocity that is not less
 than the speed of light

---
 src/main/cxx/util/helicorr.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cxx/util/helicorr.cxx b/src/main/cxx/util/helicorr.cxx
index 2cf4642..9fd9777 100644
--- a/src/main/cxx/util/helicorr.cxx
+++ b/src/main/cxx/util/helicorr.cxx
@@ -3,6 +3,7 @@
 /// @author Ralf Quast
 /// @date 2024
 /// @copyright MIT License
+#include <cmath>
 #include <exception>
 #include <stdexcept>
 
@@ -62,6 +63,12 @@ main (int argc, char *argv[])
 
       const auto v = especia::convert<real> (string (argv[1]));
 
+      if (not(std::abs (v) < especia::speed_of_light))
+        {
+          throw invalid_argument ("Error: the velocity supplied is not less "
+                                  "than the speed of light");
+        }
+
       natural skip = 0;
 
       if (argc == 3)
-- 
2.43.0


From 201b53f037d2ac18a003fb633fcfb024d1bcfb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 15/26] fix: do not search endlessly for parameter values
 between bounds which cannot be met

---
 src/main/cxx/core/optimize.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 99530a2..25fde46 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -10,6 +10,7 @@
 #include <cmath>
 #include <exception>
 #include <limits>
+#include <stdexcept>
 #include <thread>
 #include <valarray>
 #include <vector>
@@ -128,6 +129,7 @@ optimize (const F &f, const Constraint &constraint, natural n,
   using std::numeric_limits;
   using std::partial_sort;
   using std::rethrow_exception;
+  using std::runtime_error;
   using std::sqrt;
   using std::thread;
   using std::valarray;
@@ -136,6 +138,7 @@ optimize (const F &f, const Constraint &constraint, natural n,
   const real expected_norm = (n - 0.25 + 1.0 / (21 * n)) / sqrt (real (n));
   const real max_covariance_matrix_condition
       = 0.01 / numeric_limits<real>::epsilon ();
+  const natural max_attempts = 10000000;
   const real csu = sqrt (cs * (2.0 - cs));
   const real ccu = sqrt (cc * (2.0 - cc));
   const real ws = accumulate (w, w + parent_number, 0.0);
@@ -160,8 +163,19 @@ optimize (const F &f, const Constraint &constraint, natural n,
           vw = 0.0;
           for (natural j = 0, nj = 0; j < n; ++j, nj += n)
             {
+              natural attempts = 0;
+
               do
                 {
+                  // The constraint cannot be satisfied when the interval
+                  // between the bounds is empty or extremely narrow
+                  if (attempts++ == max_attempts)
+                    {
+                      throw runtime_error (
+                          "especia::optimize(): Error: the constraint on the "
+                          "parameter values could not be satisfied");
+                    }
+
                   const real z = deviate ();
 
                   for (natural i = 0, ij = nj; i < n; ++i, ++ij)
-- 
2.43.0


From ea92a19949d58c6aadac24f8bf177a57d9119bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 16/26] fix: separate the columns of the data block when a
 number fills the whole width

---
 src/main/cxx/core/section.cxx | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/main/cxx/core/section.cxx b/src/main/cxx/core/section.cxx
index fc6f667..982868b 100644
--- a/src/main/cxx/core/section.cxx
+++ b/src/main/cxx/core/section.cxx
@@ -362,18 +362,18 @@ especia::Section::put (std::ostream &os, const real a, const real b) const
             const real nun = unc[i] / cfl[i];
 
             os << setw (w) << wav[i]; // 1
-            os << setw (w) << flx[i]; // 2
-            os << setw (w) << unc[i]; // 3
+            os << ' ' << setw (w - 1) << flx[i]; // 2
+            os << ' ' << setw (w - 1) << unc[i]; // 3
             os << setw (3) << msk[i]; // 4
-            os << setw (w) << opt[i]; // 5
-            os << setw (w) << atm[i]; // 6
-            os << setw (w) << cat[i]; // 7
-            os << setw (w) << cfl[i]; // 8
-            os << setw (w) << tfl[i]; // 9
-            os << setw (w) << fit[i]; // 10
-            os << setw (w) << res[i]; // 11
-            os << setw (w) << nfl;    // 12
-            os << setw (w) << nun;    // 13
+            os << ' ' << setw (w - 1) << opt[i]; // 5
+            os << ' ' << setw (w - 1) << atm[i]; // 6
+            os << ' ' << setw (w - 1) << cat[i]; // 7
+            os << ' ' << setw (w - 1) << cfl[i]; // 8
+            os << ' ' << setw (w - 1) << tfl[i]; // 9
+            os << ' ' << setw (w - 1) << fit[i]; // 10
+            os << ' ' << setw (w - 1) << res[i]; // 11
+            os << ' ' << setw (w - 1) << nfl; // 12
+            os << ' ' << setw (w - 1) << nun; // 13
 
             os << '\n';
           }
-- 
2.43.0


From a4416747b9cf47b54240132a4e76498aa60f0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 17/26] fix: do not form references to valarray elements beyond
 the end

---
 src/main/cxx/core/model.h     | 4 ++--
 src/main/cxx/core/section.cxx | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index d393555..2fc3d32 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -158,7 +158,7 @@ public:
     for (natural i = 0; i < sections.size (); ++i)
       {
         d += sections[i].cost (
-            Superposition<Function> (nli[i], &y[isc[i] + 1]), y[isc[i]],
+            Superposition<Function> (nli[i], &y[isc[i]] + 1), y[isc[i]],
             nle[i]);
       }
     return d;
@@ -427,7 +427,7 @@ public:
     for (natural i = 0; i < sections.size (); ++i)
       {
         sections[i].apply (nle[i], val[isc[i]],
-                           Superposition<Function> (nli[i], &val[isc[i] + 1]));
+                           Superposition<Function> (nli[i], &val[isc[i]] + 1));
       }
   }
 
diff --git a/src/main/cxx/core/section.cxx b/src/main/cxx/core/section.cxx
index 982868b..e925971 100644
--- a/src/main/cxx/core/section.cxx
+++ b/src/main/cxx/core/section.cxx
@@ -42,7 +42,6 @@ void
 especia::Section::continuum (const natural m, const std::valarray<real> &cat,
                              std::valarray<real> &cfl) const
 {
-  using std::fill;
   using std::runtime_error;
   using std::sqrt;
   using std::valarray;
@@ -156,7 +155,7 @@ especia::Section::continuum (const natural m, const std::valarray<real> &cat,
     }
   else
     {
-      fill (&cfl[0], &cfl[n], 1.0);
+      cfl = 1.0;
     }
 }
 
-- 
2.43.0


From f9da8f7a60e97863f72018e518900affd49b011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 18/26] fix: do not form references to elements beyond the end
 of the indexes

---
 src/main/cxx/core/optimize.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 25fde46..3b1c4d7 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -230,8 +230,8 @@ optimize (const F &f, const Constraint &constraint, natural n,
             }
         }
 #endif
-      partial_sort (&indexes[0], &indexes[parent_number],
-                    &indexes[population_size],
+      partial_sort (&indexes[0], &indexes[0] + parent_number,
+                    &indexes[0] + population_size,
                     Index_Compare<real, Compare> (y, compare));
       ++g;
 
-- 
2.43.0


From b6068f2597aaced1b1ec070a55a338535197cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 19/26] fix: scale the uncertainty of the rest wavelength in
 that of the observed wavelength

---
 src/main/cxx/core/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 2fc3d32..a55d772 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -346,7 +346,7 @@ public:
         const real dz = unc[j + 2];
         const real dv = unc[j + 3];
         const real dw
-            = dx
+            = (1.0 + z) * (1.0 + v / c) * dx
               + x * sqrt (sq ((1.0 + v / c) * dz) + sq ((1.0 + z) * dv / c));
         const real ew = calculator.calculate (Function (&val[j]), milli);
 
-- 
2.43.0


From f388bd991e0454e5c56844f2feaf759be8c4711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 20/26] fix: reject exclusion intervals which cannot be
 interpreted

---
 src/main/cxx/core/model.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index a55d772..5e8ac9e 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -541,8 +541,18 @@ private:
                           if (s.get (ifs, a, b))
                             {
                               istringstream is2 (s2);
-                              while (is2 >> a >> b)
-                                s.mask (a, b);
+                              while (is2 >> ws and not is2.eof ())
+                                if (is2 >> a >> b)
+                                  s.mask (a, b);
+                                else
+                                  {
+                                    is.setstate (ios_base::badbit
+                                                 | ios_base::failbit);
+                                    cerr << errmsg << sid << ": " << synmsg
+                                         << endl;
+
+                                    return is;
+                                  }
 
                               sections.push_back (s);
                               isc.push_back (i);
-- 
2.43.0


From b46d9fc21360a56ac87e6904e6af5e391f00d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 21/26] fix: name the reference that cannot be resolved in the
 error message

---
 src/main/cxx/core/model.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 5e8ac9e..22a3170 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -708,7 +708,7 @@ private:
                     else
                       {
                         is.setstate (ios_base::failbit);
-                        cerr << errmsg << ref[j] << srfmsg << endl;
+                        cerr << errmsg << ref[j] << ": " << srfmsg << endl;
 
                         return is;
                       }
@@ -716,7 +716,7 @@ private:
                 else
                   {
                     is.setstate (ios_base::failbit);
-                    cerr << errmsg << ref[j] << rnfmsg << endl;
+                    cerr << errmsg << ref[j] << ": " << rnfmsg << endl;
 
                     return is;
                   }
@@ -755,7 +755,7 @@ private:
                       else
                         {
                           is.setstate (ios_base::failbit);
-                          cerr << errmsg << ref[j] << srfmsg << endl;
+                          cerr << errmsg << ref[k] << ": " << srfmsg << endl;
 
                           return is;
                         }
@@ -763,7 +763,7 @@ private:
                   else
                     {
                       is.setstate (ios_base::failbit);
-                      cerr << errmsg << ref[j] << rnfmsg << endl;
+                      cerr << errmsg << ref[k] << ": " << rnfmsg << endl;
 
                       return is;
                     }
-- 
2.43.0


From 1a2d2a48d21dc0ffcca6122ff803eefc067afbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 22/26] fix: uncertainties are computed from finite steps only

A step of the rescaling which left the domain of the objective function, and
ended the search, made all uncertainties NaN (or zero).
---
 src/main/cxx/core/optimize.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 3b1c4d7..597f64b 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -360,6 +360,7 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
   using std::current_exception;
   using std::exception_ptr;
   using std::exp;
+  using std::isfinite; // C++11
   using std::isnormal; // C++11
   using std::log;
   using std::rethrow_exception;
@@ -438,7 +439,10 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
           const bool inside = not constraint.is_violated (&p[0], n)
                               and not constraint.is_violated (&q[0], n);
           // Compute the rescaled global step size
-          g[j] = c / sqrt (abs ((zp + zq) - (zx + zx)));
+          if (isfinite (zp + zq)) // outside of its domain it may be undefined
+            {
+              g[j] = c / sqrt (abs ((zp + zq) - (zx + zx)));
+            }
 
           // Make a smaller or larger computation step in the next iteration
           if (abs (0.5 * (zp + zq) - zx) < 0.5)
-- 
2.43.0


From 9ada3aa298c6c59296512473f56db3b4757056bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 23/26] fix: sections of one or two data points are evaluated

---
 src/main/cxx/core/section.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cxx/core/section.h b/src/main/cxx/core/section.h
index 290af89..6946abc 100644
--- a/src/main/cxx/core/section.h
+++ b/src/main/cxx/core/section.h
@@ -227,7 +227,7 @@ private:
     using std::transform;
     using std::valarray;
 
-    if (n > 2)
+    if (n > 1)
       {
         // The half width at half maximum (HWHM) of the instrumental profile.
         const real h = 0.5 * center () / (r * kilo);
@@ -324,6 +324,13 @@ private:
               }
           }
       }
+    else
+      {
+        // A single data point has no spacing, and nothing to convolute.
+        transform (begin (wav), end (wav), begin (opt), tau);
+        atm = exp (-opt);
+        cat = atm;
+      }
   }
 
   /// Evaluates the primitive functions of g(x) and x g(x), where g(x) is the
-- 
2.43.0


From 6b202bb29d7c95f592c8b9ebcc4de337465978f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 24/26] fix: an empty list of sections can be written

---
 src/main/cxx/core/section.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cxx/core/section.cxx b/src/main/cxx/core/section.cxx
index e925971..bc74a1c 100644
--- a/src/main/cxx/core/section.cxx
+++ b/src/main/cxx/core/section.cxx
@@ -408,7 +408,10 @@ especia::operator<< (std::ostream &os, const std::vector<Section> &sections)
     {
       os << sections[i] << '\n';
     }
-  os << sections[i];
+  if (i < sections.size ())
+    {
+      os << sections[i];
+    }
 
   return os;
 }
-- 
2.43.0


From c99f137f5ded5bd282111e7f8178409faa032afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 25/26] fix: a model definition is parsed with the marks given

---
 src/main/cxx/core/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 22a3170..f53ea5a 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -105,7 +105,7 @@ public:
     using std::runtime_error;
 
     Model<Function> model;
-    model.get (is, os);
+    model.get (is, os, comment_mark, begin_of_section, end_of_section);
 
     if (is.fail ())
       {
-- 
2.43.0


From 3a8f42a9a56bd45f445c0671948751ba08fe7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:31 +0000
Subject: [PATCH 26/26] fix: the equation solver accepts negative solutions

---
 src/main/cxx/core/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/core/base.h b/src/main/cxx/core/base.h
index e0ed362..eeb835a 100644
--- a/src/main/cxx/core/base.h
+++ b/src/main/cxx/core/base.h
@@ -171,7 +171,7 @@ solve (typename C1<T>::type &f, T c, T x, T accuracy_goal,
       f (x, y, z);
       d = (y - c) / z;
       x -= d;
-      if (abs (d) < accuracy_goal * x)
+      if (abs (d) < accuracy_goal * abs (x))
         {
           return x;
         }
-- 
2.43.0

