// C entry points to the classes which the programs use in one way only: data
// sections and lists of them, and the convolution by quadrature.
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "base.h"
#include "integrator.h"
#include "model.h"
#include "profiles.h"
#include "readline.h"
#include "section.h"

using especia::natural;
using especia::real;
using especia::Section;

namespace
{
typedef std::vector<Section> List;
typedef double (*Fun) (double);

std::string text;

int
state (const std::istream &is)
{
  return (is.bad () ? 4 : 0) | (is.fail () ? 2 : 0) | (is.eof () ? 1 : 0);
}

template <class P>
void
run (Section &s, int apply, double r, natural m, natural nl, const double *q,
     double *out)
{
  const especia::Superposition<P> tau (nl, q);
  if (apply)
    {
      s.apply (m, r, tau);
      *out = s.cost ();
    }
  else
    {
      const Section &c = s;
      *out = c.cost (tau, r, m);
    }
}

template <class T>
void
put_all (std::ostream &os, const std::vector<T> &x)
{
  for (size_t i = 0; i < x.size (); ++i)
    os << x[i] << '\t';
  os << '\n';
}

// a model of any kind
struct Any
{
  virtual ~Any () = default;
  virtual natural count () const = 0;
  virtual void start (double *x, double *d) const = 0;
  virtual int outside (const double *x) const = 0;
  virtual double penalty (const double *x) const = 0;
  virtual double cost (const double *x) const = 0;
  virtual void set (const double *x, const double *u) = 0;
  virtual void put (std::ostream &os) const = 0;
};

template <class P> struct Some : Any
{
  typedef especia::Model<P> M;
  M m;
  explicit Some (M &&m_in) : m (std::move (m_in)) {}
  natural
  count () const override
  {
    return m.get_parameter_count ();
  }
  void
  start (double *x, double *d) const override
  {
    const std::valarray<real> a = m.get_initial_parameter_values ();
    const std::valarray<real> b = m.get_initial_local_step_sizes ();
    for (natural i = 0; i < count (); ++i)
      {
        x[i] = a[i];
        d[i] = b[i];
      }
  }
  int
  outside (const double *x) const override
  {
    return m.get_constraint ().is_violated (x, count ());
  }
  double
  penalty (const double *x) const override
  {
    return m.get_constraint ().cost (x, count ());
  }
  double
  cost (const double *x) const override
  {
    return m (x, count ());
  }
  void
  set (const double *x, const double *u) override
  {
    m.set (x, u);
  }
  void
  put (std::ostream &os) const override
  {
    m.put (os);
  }
};

template <class P>
Any *
parse (std::istream &is, std::ostream &os, const char *marks)
{
  typedef especia::Model<P> M;
  if (*marks)
    return new Some<P> (M::parse (is, os, marks[0], marks[1], marks[2]));
  return new Some<P> (M::parse (is, os));
}
} // namespace

extern "C"
{
  void *
  lst_new ()
  {
    return new List;
  }
  void
  lst_free (void *l)
  {
    delete static_cast<List *> (l);
  }
  long
  lst_count (void *l)
  {
    return long (static_cast<List *> (l)->size ());
  }
  // appends what the text has
  int
  lst_read (void *l, const char *t)
  {
    std::istringstream is (t);
    is >> *static_cast<List *> (l);
    return state (is);
  }
  const char *
  lst_write (void *l)
  {
    std::ostringstream os;
    os << *static_cast<List *> (l);
    text = os.str ();
    return text.c_str ();
  }
  void
  lst_append (void *l, long n, const double *x, const double *y,
              const double *z)
  {
    if (n < 0)
      static_cast<List *> (l)->push_back (Section ());
    else
      static_cast<List *> (l)->push_back (Section (size_t (n), x, y, z));
  }
  // reads into an existing section, returns what is left of the text
  int
  sec_read (void *l, long i, const char *t, int window, double a, double b,
            long *left)
  {
    Section &s = (*static_cast<List *> (l))[i];
    std::istringstream is (t);
    if (window)
      s.get (is, a, b);
    else
      is >> s;
    const int st = state (is);
    is.clear ();
    const long p = long (is.tellg ());
    *left = p < 0 ? 0 : long (std::strlen (t)) - p;
    return st;
  }
  const char *
  sec_write (void *l, long i, int window, double a, double b)
  {
    const Section &s = (*static_cast<List *> (l))[i];
    std::ostringstream os;
    if (window)
      s.put (os, a, b);
    else
      os << s;
    text = os.str ();
    return text.c_str ();
  }
  void
  sec_info (void *l, long i, double *out)
  {
    const Section &s = (*static_cast<List *> (l))[i];
    out[0] = double (s.data_count ());
    out[1] = s.lower_bound ();
    out[2] = s.center ();
    out[3] = s.upper_bound ();
    out[4] = s.width ();
    out[5] = double (s.valid_data_count ());
    out[6] = s.cost ();
  }
  void
  sec_mask (void *l, long i, double a, double b)
  {
    (*static_cast<List *> (l))[i].mask (a, b);
  }
  // returns 0, or 1 after an exception
  int
  sec_run (void *l, long i, int apply, int kind, double r, long m, long nl,
           const double *q, double *out)
  {
    using namespace especia;
    Section &s = (*static_cast<List *> (l))[i];
    try
      {
        switch (kind)
          {
          case 0:
            run<Many_Multiplet> (s, apply, r, natural (m), natural (nl), q,
                                 out);
            break;
          case 1:
            run<Intergalactic_Doppler> (s, apply, r, natural (m), natural (nl),
                                        q, out);
            break;
          case 2:
            run<Intergalactic_Voigt<Pseudo_Voigt> > (
                s, apply, r, natural (m), natural (nl), q, out);
            break;
          default:
            run<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (
                s, apply, r, natural (m), natural (nl), q, out);
          }
        return 0;
      }
    catch (...)
      {
        return 1;
      }
  }

  double
  convolute (int p, int q, Fun f, Fun g, double x)
  {
    typedef especia::Integrator<real> I;
    auto ff = [f] (real t) -> real { return f (t); };
    auto gg = [g] (real t) -> real { return g (t); };
    if (p < 0)
      return especia::Convolutor<I> ().convolute (ff, gg, x);
    return especia::Convolutor<I> (I (I::Formula (p), I::Formula (q)))
        .convolute (ff, gg, x);
  }

  // a model, or null when the definition is rejected
  void *
  mdl_new (int kind, const char *t, const char *marks)
  {
    using namespace especia;
    std::istringstream is (t);
    std::ostringstream os;
    Any *m = nullptr;
    std::ostringstream message;
    std::streambuf *const old = std::cerr.rdbuf (message.rdbuf ());
    try
      {
        switch (kind)
          {
          case 0:
            m = parse<Many_Multiplet> (is, os, marks);
            break;
          case 1:
            m = parse<Intergalactic_Doppler> (is, os, marks);
            break;
          case 2:
            m = parse<Intergalactic_Voigt<Pseudo_Voigt> > (is, os, marks);
            break;
          default:
            m = parse<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (is, os,
                                                                    marks);
          }
      }
    catch (const std::exception &)
      {
      }
    std::cerr.rdbuf (old);
    text = m ? os.str () : message.str ();
    return m;
  }
  void
  mdl_free (void *m)
  {
    delete static_cast<Any *> (m);
  }
  // what was written when the model was read, or the error message
  const char *
  mdl_echo ()
  {
    return text.c_str ();
  }
  long
  mdl_count (void *m)
  {
    return long (static_cast<Any *> (m)->count ());
  }
  void
  mdl_start (void *m, double *x, double *d)
  {
    static_cast<Any *> (m)->start (x, d);
  }
  int
  mdl_outside (void *m, const double *x)
  {
    return static_cast<Any *> (m)->outside (x);
  }
  double
  mdl_penalty (void *m, const double *x)
  {
    return static_cast<Any *> (m)->penalty (x);
  }
  // costs of k parameter vectors, by k threads at once or in turn; returns
  // the number of exceptions, the cost is not a number then
  int
  mdl_costs (void *v, long k, const double *x, double *y, int threads)
  {
    const Any &m = *static_cast<Any *> (v);
    const natural n = m.count ();
    std::vector<char> bad (k, 0);
    auto f = [&m, n, x, y, &bad] (long i) {
      try
        {
          y[i] = m.cost (x + i * long (n));
        }
      catch (const std::exception &)
        {
          y[i] = std::numeric_limits<double>::quiet_NaN ();
          bad[i] = 1;
        }
    };
    std::vector<std::thread> ts;
    for (long i = 0; i < k; ++i)
      if (threads)
        ts.emplace_back (f, i);
      else
        f (i);
    for (auto &t : ts)
      t.join ();
    int e = 0;
    for (char b : bad)
      e += b;
    return e;
  }
  // returns 0, or 1 after an exception
  int
  mdl_set (void *m, const double *x, const double *u)
  {
    try
      {
        static_cast<Any *> (m)->set (x, u);
        return 0;
      }
    catch (const std::exception &)
      {
        return 1;
      }
  }
  const char *
  mdl_put (void *m)
  {
    std::ostringstream os;
    static_cast<Any *> (m)->put (os);
    text = os.str ();
    return text.c_str ();
  }
  // reads n rows into vectors which have k elements already; writes the
  // content of each vector on a line of its own
  const char *
  prm_read (int cols, const char *t, long n, int append, int eol, long k,
            int *st, long *left)
  {
    std::vector<double> v[3];
    std::vector<int> d;
    std::vector<double> e;
    std::vector<bool> b;
    std::vector<std::string> s;
    for (long i = 0; i < k; ++i)
      {
        for (int j = 0; j < 3; ++j)
          v[j].push_back (100.0 * (j + 1) + double (i));
        d.push_back (int (400 + i));
        e.push_back (500.0 + double (i));
        b.push_back (i % 2);
        s.push_back ("s" + std::to_string (i));
      }
    std::istringstream is (t);
    const size_t m = size_t (n);
    switch (cols)
      {
      case 1:
        especia::read (is, v[0], m, append);
        break;
      case 2:
        especia::read (is, v[0], v[1], m, append);
        break;
      case 3:
        especia::read (is, v[0], v[1], v[2], m, append);
        break;
      case 4:
        especia::read (is, v[0], v[1], v[2], d, m, append);
        break;
      case 5:
        especia::read (is, v[0], v[1], v[2], d, e, m, append);
        break;
      default:
        especia::read (is, v[0], v[1], v[2], b, s, m, char (eol), append);
      }
    *st = state (is);
    is.clear ();
    const long p = long (is.tellg ());
    *left = p < 0 ? 0 : long (std::strlen (t)) - p;
    std::ostringstream os;
    os.precision (17);
    for (auto &x : v)
      put_all (os, x);
    put_all (os, d);
    put_all (os, e);
    put_all (os, b);
    put_all (os, s);
    text = os.str ();
    return text.c_str ();
  }
  // reads lines up to the end of the stream, or as many as given
  const char *
  prm_lines (const char *t, int mark, int eol, long most, int *st, long *left)
  {
    std::istringstream is (t);
    std::string line;
    std::ostringstream os;
    for (long i = 0; i < most
                     and especia::readline (is, line, char (mark), char (eol));
         ++i)
      os << '[' << line << "]\x1e";
    *st = state (is);
    is.clear ();
    const long p = long (is.tellg ());
    *left = p < 0 ? 0 : long (std::strlen (t)) - p;
    text = os.str ();
    return text.c_str ();
  }
  // converts into text, an empty string after an exception
  const char *
  prm_convert (int kind, const char *t)
  {
    std::ostringstream os;
    os.precision (17);
    try
      {
        switch (kind)
          {
          case 0:
            os << especia::convert<real> (t);
            break;
          case 1:
            os << especia::convert<natural> (t);
            break;
          case 2:
            os << especia::convert<especia::word64> (t);
            break;
          case 3:
            os << especia::convert<especia::integer> (t);
            break;
          default:
            os << especia::convert<especia::word32> (t);
          }
      }
    catch (const std::invalid_argument &)
      {
        os.str ("");
      }
    text = os.str ();
    return text.c_str ();
  }
  // returns 0, or 1 after an exception
  int
  prm_solve (void (*f) (const double &, double &, double &), double c,
             double x, double goal, long most, double *out)
  {
    try
      {
        *out = most < 0 ? especia::solve<real> (*f, c, x, goal)
                        : especia::solve<real> (*f, c, x, goal, natural (most));
        return 0;
      }
    catch (const std::runtime_error &)
      {
        return 1;
      }
  }
  double
  prm_norm (long n, const double *x)
  {
    return especia::norm (natural (n), x);
  }
  double
  prm_redshift (double v)
  {
    return especia::redshift (v);
  }
  double
  prm_sq (double x)
  {
    return especia::sq (x);
  }
}
