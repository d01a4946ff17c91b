// Coverage-guided fuzzing of the parsers: model definitions, spectra, tables.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <valarray>
#include <vector>

#include "dataio.h"
#include "model.h"
#include "profiles.h"
#include "section.h"

using especia::natural;
using especia::real;

namespace
{
void
demand (bool condition, const char *what)
{
  if (not condition)
    {
      std::fprintf (stderr, "DEMAND: %s\n", what);
      std::abort ();
    }
}

// the lines of a text, as the definition is copied
std::vector<std::string>
lines_of (const std::string &text)
{
  std::vector<std::string> v;
  std::istringstream is (text);
  std::string s;
  while (std::getline (is, s))
    v.push_back (s);
  return v;
}

struct Seen
{
  bool parsed = false;
  natural n = 0;
  std::vector<real> x, z;
  std::string echo;
};

template <class F>
Seen
parse (const std::string &text)
{
  typedef especia::Model<F> Model;
  Seen r;
  std::istringstream is (text);
  std::ostringstream os;
  try
    {
      const Model m = Model::parse (is, os);
      r.parsed = true;
      r.n = m.get_parameter_count ();
      const std::valarray<real> x = m.get_initial_parameter_values ();
      const std::valarray<real> z = m.get_initial_local_step_sizes ();
      demand (x.size () == r.n and z.size () == r.n,
              "numbers of parameters differ");
      for (natural i = 0; i < r.n; ++i)
        {
          r.x.push_back (x[i]);
          r.z.push_back (z[i]);
          demand (not(z[i] < 0.0), "a step size is negative");
          demand (not std::isnan (x[i]), "an initial value is not a number");
        }
      const auto c = m.get_constraint ();
      bool finite = true;
      for (natural i = 0; i < r.n; ++i)
        finite = finite and std::isfinite (x[i] + 4.0 * z[i]);
      if (r.n > 0 and finite)
        demand (not c.is_violated (&x[0], r.n),
                "the initial values violate the bounds");
      r.echo = os.str ();
    }
  catch (const std::runtime_error &)
    {
      r.echo = os.str ();
    }
  return r;
}

template <class F>
void
model (const std::string &text)
{
  const Seen a = parse<F> (text);
  // the definition is copied as it is
  const std::string head = "<!DOCTYPE html>\n<html>\n<!--\n<model>\n";
  const std::string tail = "</model>\n-->\n</html>\n";
  demand (a.echo.size () >= head.size () + tail.size ()
              and a.echo.compare (0, head.size (), head) == 0
              and a.echo.compare (a.echo.size () - tail.size (), tail.size (),
                                  tail)
                      == 0,
          "the copy of the definition is not framed");
  demand (lines_of (a.echo.substr (
              head.size (), a.echo.size () - head.size () - tail.size ()))
              == lines_of (text),
          "the copy of the definition differs");
  const Seen b = parse<F> (text);
  demand (a.parsed == b.parsed and a.n == b.n and a.x == b.x and a.z == b.z
              and a.echo == b.echo,
          "the second reading differs from the first");
}

void
spectrum (const std::string &text, real a, real b)
{
  especia::Section s;
  std::istringstream is (text);
  if (not s.get (is, a, b))
    return;
  demand (s.valid_data_count () <= lines_of (text).size (),
          "more data than lines");
  demand (s.lower_bound () >= a and s.lower_bound () <= b
              and s.upper_bound () >= a and s.upper_bound () <= b,
          "data beyond the window");
  std::ostringstream o1, o2, o3;
  s.put (o1, -HUGE_VAL, HUGE_VAL);
  s.put (o3, a, b);
  demand (o1.str () == o3.str (), "data beyond the window are written");
  especia::Section t;
  std::istringstream again (o1.str ());
  demand (bool (t.get (again, -HUGE_VAL, HUGE_VAL)),
          "written data cannot be read");
  t.put (o2, -HUGE_VAL, HUGE_VAL);
  demand (o1.str () == o2.str (), "data written, read and written differ");
  demand (s.valid_data_count () == t.valid_data_count (),
          "valid data differ when read again");
}

void
table (const std::string &text, natural skip)
{
  std::valarray<real> x, y, z, u, v, w;
  std::istringstream is (text), is2 (text);
  const bool three = bool (especia::get (is, x, y, z, skip));
  const bool two = bool (especia::get (is2, u, v, skip));
  demand (two or not three, "a table is read with three columns only");
  if (two)
    {
      demand (u.size () == v.size () and u.size () > 0, "incomplete columns");
      demand (u.size () + skip <= lines_of (text).size ()
                  or u.size () <= lines_of (text).size (),
              "more data than lines");
    }
  if (three)
    {
      demand (x.size () == u.size () and y.size () == x.size (),
              "different numbers of rows");
      demand (z.size () == 0 or z.size () == x.size (), "incomplete column");
      std::ostringstream o1, o2;
      especia::put (o1, x, y, z);
      std::istringstream again (o1.str ());
      std::valarray<real> p, q, r;
      demand (bool (especia::get (again, p, q, r, 0)),
              "written data cannot be read");
      demand (p.size () == x.size () and r.size () == z.size (),
              "data are lost");
      especia::put (o2, p, q, r);
      demand (o1.str () == o2.str (), "data written, read and written differ");
    }
}
} // namespace

extern "C" int
LLVMFuzzerInitialize (int *, char ***)
{
  static std::ofstream null ("/dev/null");
  std::cerr.rdbuf (null.rdbuf ());
  return 0;
}

extern "C" int
LLVMFuzzerTestOneInput (const uint8_t *data, size_t size)
{
  using namespace especia;

  if (size < 1)
    return 0;
  const int k = data[0];
  const std::string text (reinterpret_cast<const char *> (data) + 1, size - 1);
  switch (k)
    {
    case 'a':
      model<Many_Multiplet> (text);
      break;
    case 'c':
      model<Intergalactic_Doppler> (text);
      break;
    case 'm':
      model<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (text);
      break;
    case 'o':
      model<Intergalactic_Voigt<Pseudo_Voigt> > (text);
      break;
    case 's':
      spectrum (text, -HUGE_VAL, HUGE_VAL);
      break;
    case 'w':
      spectrum (text, 2.0, 5000.5);
      break;
    case 't':
      table (text, 0);
      break;
    case 'u':
      table (text, 2);
      break;
    }
  return 0;
}
