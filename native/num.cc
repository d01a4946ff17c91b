// C entry points to the numerical classes: random numbers, deviates,
// eigenvalue decompositions, integrator, equations, profiles.
#include <memory>
#include <stdexcept>
#include <vector>

#include "decompose.h"
#include "deviates.h"
#include "equations.h"
#include "integrator.h"
#include "profiles.h"
#include "random.h"

using especia::natural;
using especia::real;
using especia::word64;

namespace
{
struct Gen
{
  virtual ~Gen () {}
  virtual word64 word () = 0;
  virtual real uniform () = 0;
  virtual Gen *clone () = 0;
  virtual Gen *deviate () = 0; // deviates from a copy of this generator
};

template <class U> struct Dev : Gen
{
  especia::Normal_Deviate<U> d;
  explicit Dev (const U &u) : d (u) {}
  explicit Dev (word64 s) : d (s) {}
  word64
  word ()
  {
    return 0;
  }
  real
  uniform ()
  {
    return d ();
  }
  Gen *
  clone ()
  {
    return new Dev (*this);
  }
  Gen *
  deviate ()
  {
    return clone ();
  }
};

template <class U> struct Impl : Gen
{
  U u;
  explicit Impl (const U &v) : u (v) {}
  word64
  word ()
  {
    return u.rand ();
  }
  real
  uniform ()
  {
    return u ();
  }
  Gen *
  clone ()
  {
    return new Impl (u);
  }
  Gen *
  deviate ()
  {
    return new Dev<U> (u);
  }
};

template <class U>
Gen *
make (int mode, long n, const word64 *s)
{
  if (mode == 0) // one seed
    return new Impl<U> (U (s[0]));
  if (mode == 1) // seed array
    return new Impl<U> (U (natural (n), s));
  return new Dev<U> (s[0]); // deviate from a seed
}

struct Dec
{
  virtual ~Dec () {}
  virtual void run (const real *A, real *Z, real *w) = 0;
};

template <class D> struct Dec_Impl : Dec
{
  D d;
  explicit Dec_Impl (natural n) : d (n) {}
  void
  run (const real *A, real *Z, real *w)
  {
    d (A, Z, w);
  }
};

typedef double (*Fun) (double);

template <class P>
void
eval (const double *q, long n, const double *x, double *y, double *extra,
      int f1, int f2)
{
  typedef especia::Integrator<real> I;
  const P p (q);
  for (long i = 0; i < n; ++i)
    y[i] = p (x[i]);
  extra[0] = p.center ();
  extra[1] = p.redshift_factor ();
  extra[2] = P::parameter_count ();
  if (f1 >= 0)
    extra[3] = especia::Equivalent_Width_Calculator<I> (
                   I (I::Formula (f1), I::Formula (f2)))
                   .calculate (p, especia::milli);
}
} // namespace

extern "C"
{
  void *
  gen_new (int kind, int mode, long n, const word64 *s)
  {
    switch (kind)
      {
      case 0:
        return make<especia::Melg19937_64> (mode, n, s);
      case 1:
        return make<especia::Mt11213a_32> (mode, n, s);
      case 2:
        return make<especia::Mt11213b_32> (mode, n, s);
      case 3:
        return make<especia::Mt19937_32> (mode, n, s);
      case 4:
        return make<especia::Mt19937_64> (mode, n, s);
      case 5:
        if (mode == 0)
          return new Impl<especia::Pcg_32> (especia::Pcg_32 (s[0]));
        if (mode == 1)
          return new Impl<especia::Pcg_32> (especia::Pcg_32 (s[0], s[1]));
        return new Dev<especia::Pcg_32> (s[0]);
      }
    return nullptr;
  }
  void *
  gen_clone (void *g)
  {
    return static_cast<Gen *> (g)->clone ();
  }
  void *
  gen_deviate (void *g)
  {
    return static_cast<Gen *> (g)->deviate ();
  }
  void
  gen_free (void *g)
  {
    delete static_cast<Gen *> (g);
  }
  void
  gen_words (void *g, long n, word64 *out)
  {
    for (long i = 0; i < n; ++i)
      out[i] = static_cast<Gen *> (g)->word ();
  }
  void
  gen_reals (void *g, long n, double *out)
  {
    for (long i = 0; i < n; ++i)
      out[i] = static_cast<Gen *> (g)->uniform ();
  }

  void *
  dec_new (int kind, long n)
  {
    switch (kind)
      {
      case 0:
        return new Dec_Impl<especia::D_Decompose> (natural (n));
      case 1:
        return new Dec_Impl<especia::R_Decompose> (natural (n));
      case 2:
        return new Dec_Impl<especia::X_Decompose> (natural (n));
      case 3:
        return new Dec_Impl<especia::Decompose> (natural (n));
      }
    return nullptr;
  }
  int
  dec_run (void *d, const double *A, double *Z, double *w)
  {
    try
      {
        static_cast<Dec *> (d)->run (A, Z, w);
        return 0;
      }
    catch (...)
      {
        return 1;
      }
  }
  void
  dec_free (void *d)
  {
    delete static_cast<Dec *> (d);
  }

  // refractive index, frequency function and its derivative
  void
  equation (int kind, double x, double *out)
  {
    typedef especia::Equations E;
    switch (kind)
      {
      case 0:
        out[0] = E::birch94 (x);
        E::birch94 (x, out[1], out[2]);
        break;
      case 1:
        out[0] = E::edlen53 (x);
        E::edlen53 (x, out[1], out[2]);
        break;
      case 2:
        out[0] = E::edlen66 (x);
        E::edlen66 (x, out[1], out[2]);
        break;
      }
  }
  int
  solve_equation (int kind, double c, double x, double acc, double *out)
  {
    typedef especia::Equations E;
    try
      {
        switch (kind)
          {
          case 0:
            *out = especia::solve (E::birch94, c, x, acc);
            break;
          case 1:
            *out = especia::solve (E::edlen53, c, x, acc);
            break;
          case 2:
            *out = especia::solve (E::edlen66, c, x, acc);
            break;
          }
        return 0;
      }
    catch (const std::runtime_error &)
      {
        return 1;
      }
  }
  double
  doppler (double v)
  {
    return especia::redshift (v);
  }

  double
  integrate (int p, int q, int mode, double a, double b, double acc,
             long maxit, Fun f)
  {
    typedef especia::Integrator<real> I;
    const I i = I (I::Formula (p), I::Formula (q));
    auto g = [f] (real x) -> real { return f (x); };
    switch (mode)
      {
      case 0:
        return i.integrate (g, a, b, acc, natural (maxit));
      case 1:
        return i.integrate_positive_infinite (g, acc, natural (maxit));
      case 2:
        return i.integrate_negative_infinite (g, acc, natural (maxit));
      case 3:
        return i.integrate_infinite (g, acc, natural (maxit));
      case 4: // defaults
        return I ().integrate (g, a, b);
      }
    return 0.0;
  }

  // extra: centre, redshift factor, number of parameters, equivalent width
  void
  profile (int kind, const double *q, long n, const double *x, double *y,
           double *extra, int f1, int f2)
  {
    using namespace especia;
    switch (kind)
      {
      case 0:
        return eval<Many_Multiplet> (q, n, x, y, extra, f1, f2);
      case 1:
        return eval<Intergalactic_Doppler> (q, n, x, y, extra, f1, f2);
      case 2:
        return eval<Intergalactic_Voigt<Pseudo_Voigt> > (q, n, x, y, extra,
                                                         f1, f2);
      case 3:
        return eval<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (
            q, n, x, y, extra, f1, f2);
      }
  }
  // area normalised profiles of width b (1/e half-width) and d (HWHM)
  void
  voigt (int kind, double b, double d, long n, const double *x, double *y)
  {
    const especia::Pseudo_Voigt p (b, d);
    const especia::Extended_Pseudo_Voigt e (b, d);
    for (long i = 0; i < n; ++i)
      y[i] = kind ? e (x[i]) : p (x[i]);
  }
}
