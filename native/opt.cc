// C entry points to drive the optimizer with generated objective functions.
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstring>
#include <stdexcept>
#include <valarray>
#include <vector>

#include "model.h"
#include "optimizer.h"
#include "profiles.h"

using especia::natural;
using especia::real;
using especia::word64;

namespace
{
// a strictly increasing function given by a table
std::vector<double> table_from, table_to;

struct Objective
{
  int kind;
  natural n;
  const double *par; // centre (n), then kind specific
  int transform;
  double tpar;
  double sign;
  double delay; // extra work, to shake the schedule
  mutable std::atomic<long> *count;
  long cap;
  double *log; // cap * (n + 1)

  double
  value (const real x[]) const
  {
    double y = 0.0;
    switch (kind)
      {
      case 0: // 0.5 (x-c)' A (x-c) + f0
        {
          const double *c = par;
          const double *A = par + n;
          const double f0 = par[n + n * n];
          for (natural i = 0; i < n; ++i)
            {
              double r = 0.0;
              for (natural j = 0; j < n; ++j)
                r += A[i * n + j] * (x[j] - c[j]);
              y += 0.5 * r * (x[i] - c[i]);
            }
          return y + f0;
        }
      case 1: // weighted sum of |x-c|^p
        {
          const double p = par[2 * n];
          for (natural i = 0; i < n; ++i)
            y += par[n + i] * std::pow (std::fabs (x[i] - par[i]), p);
          return y + par[2 * n + 1];
        }
      case 2: // linear
        for (natural i = 0; i < n; ++i)
          y += par[i] * x[i];
        return y;
      case 3: // Rosenbrock around c
        for (natural i = 0; i + 1 < n; ++i)
          {
            const double a = x[i] - par[i] + 1.0;
            const double b = x[i + 1] - par[i + 1] + 1.0;
            y += par[n] * (b - a * a) * (b - a * a) + (1.0 - a) * (1.0 - a);
          }
        return y;
      case 4: // constant
        return par[0];
      case 5: // multimodal
        for (natural i = 0; i < n; ++i)
          {
            const double d = x[i] - par[i];
            y += d * d + par[n] * (1.0 - std::cos (6.0 * d));
          }
        return y;
      case 6: // steps: quantised quadratic
        for (natural i = 0; i < n; ++i)
          y += (x[i] - par[i]) * (x[i] - par[i]);
        return std::floor (y / par[n]);
      default:
        return std::nan ("");
      }
  }

  real
  operator() (const real x[], natural m) const
  {
    double y = value (x);
    if (delay > 0.0)
      {
        unsigned long h = 0;
        std::memcpy (&h, &x[0], sizeof h);
        volatile double s = 0.0;
        for (long i = (h >> 20) % (long)delay; i > 0; --i)
          s = s + 1.0;
      }
    switch (transform)
      {
      case 0:
        break;
      case 1:
        y = std::ldexp (y, (int)tpar);
        break;
      case 2:
        y = std::cbrt (y);
        break;
      case 3:
        y = y * y * y;
        break;
      case 4:
        y = std::log (y);
        break;
      case 5:
        y = tpar * y;
        break;
      case 6:
        y = std::atan (y * tpar);
        break;
      case 7:
        {
          size_t i = std::lower_bound (table_from.begin (), table_from.end (),
                                       y)
                     - table_from.begin ();
          if (i >= table_to.size ())
            i = table_to.size () - 1;
          y = table_to[i];
          break;
        }
      case 8: // defined between the values of the table only
      case 9: // infinite elsewhere
        for (natural i = 0; i < n; ++i)
          if (x[i] < table_from[i] or x[i] > table_to[i])
            y = transform == 8 ? std::nan ("") : sign * HUGE_VAL;
        break;
      }
    y *= sign;
    const long k = count->fetch_add (1);
    if (k < cap)
      {
        double *p = log + k * (n + 1);
        for (natural i = 0; i < n; ++i)
          p[i] = x[i];
        p[n] = y;
      }
    if (m != n)
      throw std::logic_error ("wrong dimension");
    return y;
  }
};

struct Tracer
{
  long modulus;
  mutable long *count;
  long cap;
  double *log; // cap * 4

  bool
  is_tracing (natural g) const
  {
    return modulus > 0 and g % modulus == 0;
  }
  void
  trace (natural g, real y, real a, real b) const
  {
    if (*count < cap)
      {
        double *p = log + 4 * *count;
        p[0] = g;
        p[1] = y;
        p[2] = a;
        p[3] = b;
      }
    ++*count;
  }
};
} // namespace

extern "C"
{
  void
  opt_table (long n, const double *from, const double *to)
  {
    table_from.assign (from, from + n);
    table_to.assign (to, to + n);
  }

  // ints: kind n transform maximize parents population modulus stop bounded
  //       trace repeat
  // reals: tpar acc step delay
  // out: x z d (n each), fitness, step, optimized, underflow, generations
  //      then C (n*n), B (n*n), pc, ps (n each)
  int
  opt_run (const long *ints, const double *reals, unsigned long long seed,
           const double *par, const double *x0, const double *d0,
           const double *lo, const double *up, long cap, double *log,
           long *ncalls, long tcap, double *tlog, long *ntrace, double *out)
  {
    try
      {
        const natural n = ints[1];
        std::atomic<long> count (0);
        *ntrace = 0;
        Objective f{ (int)ints[0], n,        par, (int)ints[2], reals[0],
                     ints[3] ? -1.0 : 1.0,   reals[3], &count, cap, log };
        Tracer t{ ints[9], ntrace, tcap, tlog };
        especia::Optimizer::Builder b;
        b.with_defaults ()
            .with_problem_dimension (n)
            .with_parent_number (ints[4])
            .with_population_size (ints[5])
            .with_covariance_update_modulus (ints[6])
            .with_accuracy_goal (reals[1])
            .with_random_seed (seed)
            .with_stop_generation (ints[7]);
        const std::valarray<real> x (x0, n), d (d0, n);
        typedef especia::Model<especia::Intergalactic_Doppler> M;
        for (long rep = 0; rep <= ints[10]; ++rep)
          {
            const especia::Optimizer o = b.build ();
            count = 0;
            *ntrace = 0;
            auto run = [&] () {
              if (ints[8])
                {
                  M::Bounded_Constraint<real> c (lo, up, n);
                  return ints[3] ? o.maximize (f, x, d, reals[2], c, t)
                                 : o.minimize (f, x, d, reals[2], c, t);
                }
              especia::No_Constraint<real> c;
              return ints[3] ? o.maximize (f, x, d, reals[2], c, t)
                             : o.minimize (f, x, d, reals[2], c, t);
            };
            const especia::Optimizer::Result r = run ();
            *ncalls = count;
            double *p = out;
            for (natural i = 0; i < n; ++i)
              *p++ = r.get_parameter_values ()[i];
            for (natural i = 0; i < n; ++i)
              *p++ = r.get_parameter_uncertainties ()[i];
            for (natural i = 0; i < n; ++i)
              *p++ = r.get_local_step_sizes ()[i];
            *p++ = r.get_fitness ();
            *p++ = r.get_global_step_size ();
            *p++ = r.is_optimized ();
            *p++ = r.is_underflow ();
            *p++ = r.get_generation_number ();
            for (natural i = 0; i < n * n; ++i)
              *p++ = r.get_covariance_matrix ()[i];
            for (natural i = 0; i < n * n; ++i)
              *p++ = r.get_rotation_matrix ()[i];
            for (natural i = 0; i < n; ++i)
              *p++ = r.get_distribution_cumulation_path ()[i];
            for (natural i = 0; i < n; ++i)
              *p++ = r.get_step_size_cumulation_path ()[i];
          }
        return 0;
      }
    catch (...)
      {
        return 1;
      }
  }

  // Applies a history of calls to a builder; each op is (code, value). Writes
  // the settings after every call: 12 numbers and the first 8 weights.
  int
  opt_builder (long nops, const long *code, const double *value,
               const unsigned long long *word, double *out)
  {
    try
      {
        especia::Optimizer::Builder b;
        for (long k = 0; k <= nops; ++k)
          {
            if (k > 0)
              {
                const double v = value[k - 1];
                const natural m = (natural)v;
                especia::Optimizer::Builder *r = &b;
                switch (code[k - 1])
                  {
                  case 0:
                    r = &b.with_defaults ();
                    break;
                  case 1:
                    r = &b.with_problem_dimension (m);
                    break;
                  case 2:
                    r = &b.with_parent_number (m);
                    break;
                  case 3:
                    r = &b.with_population_size (m);
                    break;
                  case 4:
                    r = &b.with_covariance_update_modulus (m);
                    break;
                  case 5:
                    r = &b.with_accuracy_goal (v);
                    break;
                  case 6:
                    r = &b.with_random_seed (word[k - 1]);
                    break;
                  case 7:
                    r = &b.with_stop_generation (m);
                    break;
                  case 8:
                    {
                      const especia::Optimizer::Builder c (b);
                      b = c;
                      break;
                    }
                  case 9:
                    b.build ();
                    break;
                  }
                if (r != &b)
                  return 2;
              }
            double *p = out + 22 * k;
            *p++ = b.get_problem_dimension ();
            *p++ = b.get_parent_number ();
            *p++ = b.get_population_size ();
            *p++ = b.get_covariance_update_modulus ();
            *p++ = b.get_accuracy_goal ();
            *p++ = (double)(b.get_random_seed () >> 32);
            *p++ = (double)(b.get_random_seed () & 0xFFFFFFFFULL);
            *p++ = b.get_stop_generation ();
            *p++ = b.get_step_size_cumulation_rate ();
            *p++ = b.get_distribution_cumulation_rate ();
            *p++ = b.get_rank_1_covariance_matrix_adaption_rate ();
            *p++ = b.get_rank_m_covariance_matrix_adaption_rate ();
            *p++ = b.get_step_size_damping ();
            *p++ = b.get_weights ().size ();
            for (size_t i = 0; i < 8; ++i)
              *p++ = i < b.get_weights ().size () ? b.get_weights ()[i] : 0.0;
          }
        return 0;
      }
    catch (...)
      {
        return 1;
      }
  }
}
