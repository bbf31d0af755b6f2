/* C30: vector, matrix and list helpers, reference counters, strong types and the tables of the element classes. */
#include "shapes.hxx"
#include <t8_types/t8_vec.hxx>
#include <t8_types/t8_type.hxx>
#include <t8_types/t8_operators.hxx>
#include <t8_helper_functions/t8_mat.h>
#include <t8_helper_functions/t8_vector_algorithms.hxx>
#include <t8_helper_functions/t8_unrolled_for.hxx>
#include <t8_helper_functions/t8_refcount.h>
#include <t8_element/t8_element_shape.h>
#include <sc_containers.h>
#include <span>
#include <list>

extern "C" {
double cc_norm (const double *);
void cc_normalize (double *);
void cc_copy (const double *, double *);
double cc_dist (const double *, const double *);
void cc_ax (double *, double);
void cc_axy (const double *, double *, double);
void cc_axb (const double *, double *, double, double);
void cc_axpy (const double *, double *, double);
void cc_axpyz (const double *, const double *, double *, double);
double cc_dot (const double *, const double *);
void cc_cross3 (const double *, const double *, double *);
double cc_cross2 (const double *, const double *);
void cc_diff (const double *, const double *, double *);
int cc_eq (const double *, const double *, double);
void cc_rescale (double *, double);
void cc_normal (const double *, const double *, const double *, double *);
void cc_tripod (const double *, double *, double *);
void cc_swap (double *, double *);
const int *cc_table (int, int *);
const char *cc_name (int);
}

using namespace vf;
typedef long double ld;

static bool
near_ld (ld got, ld want, ld scale, ld ulps = 16)
{
  return std::fabs (got - want) <= ulps * 2.3e-16L * scale + 1e-300L;
}

/* a number: small integers, zeros, equal to others, wide range */
static double
num (Rng &r, int mode)
{
  switch (mode) {
  case 0:
    return r.range (-3, 3);
  case 1:
    return r.unit () * 2 - 1;
  default: {
    double m = r.unit () * 2 - 1;
    return m * std::pow (10.0, r.range (-40, 40));
  }
  }
}
static std::vector<double>
vec (Rng &r, int n, int mode)
{
  std::vector<double> v;
  for (int i = 0; i < n; ++i)
    v.push_back (num (r, mode));
  if (r.chance (0.1) && n) {
    double c = v[0];
    for (int i = 0; i < n; ++i)
      v[i] = (r.chance (0.5) ? -c : c);
  }
  return v;
}
static std::string
str (const std::vector<double> &v)
{
  std::string s = "(";
  for (double x : v)
    s += fmt ("%.17g ", x);
  return s + ")";
}
static ld
ldot (const std::vector<double> &a, const std::vector<double> &b)
{
  ld s = 0;
  for (size_t i = 0; i < a.size (); ++i)
    s += (ld) a[i] * b[i];
  return s;
}
static ld
lnorm (const std::vector<double> &a)
{
  return sqrtl (ldot (a, a));
}
static ld
labs_sum (const std::vector<double> &a, const std::vector<double> &b)
{
  ld s = 0;
  for (size_t i = 0; i < a.size (); ++i)
    s += fabsl ((ld) a[i] * b[i]);
  return s;
}

/* all helpers on one container type */
template <class V>
static void
vectors (Rng &r, const char *kind, int n)
{
  const int mode = r.range (0, 2);
  const std::vector<double> x = vec (r, n, mode), y = vec (r, n, mode);
  const double al = num (r, r.range (0, 1)), be = num (r, mode);
  auto mk = [&] (const std::vector<double> &v) {
    V o {};
    if constexpr (requires { o.resize (1); })
      o.resize (n);
    std::copy (v.begin (), v.end (), std::begin (o));
    return o;
  };
  auto back = [&] (const V &v) { return std::vector<double> (std::begin (v), std::end (v)); };
  ctx ("%s n %d x %s y %s alpha %.17g", kind, n, str (x).c_str (), str (y).c_str (), al);
  seen ("vectors", comb (hash_str (kind), comb (hash_bytes (x.data (), n * 8), hash_bytes (y.data (), n * 8))));
  count ("vectors");
  V X = mk (x), Y = mk (y), Z = mk (x);
  VF_CHECK (near_ld (t8_norm (X), lnorm (x), lnorm (x)), "norm", "norm %.17g instead of %.17Lg", t8_norm (X), lnorm (x));
  VF_CHECK (near_ld (t8_dot (X, Y), ldot (x, y), labs_sum (x, y)), "dot", "dot %.17g instead of %.17Lg", t8_dot (X, Y), ldot (x, y));
  ld d2 = 0;
  for (int i = 0; i < n; ++i)
    d2 += ((ld) x[i] - y[i]) * ((ld) x[i] - y[i]);
  VF_CHECK (near_ld (t8_dist (X, Y), sqrtl (d2), sqrtl (d2)), "dist", "dist %.17g instead of %.17Lg", t8_dist (X, Y), sqrtl (d2));
  auto each = [&] (const V &v, const char *key, auto f, auto sc) {
    std::vector<double> g = back (v);
    for (int i = 0; i < n; ++i)
      VF_CHECK (near_ld (g[i], f (i), sc (i), 4), key, "%s entry %d is %.17g instead of %.17Lg", key, i, g[i], (ld) f (i));
  };
  Z = mk (y);
  t8_copy (X, Z);
  each (Z, "copy", [&] (int i) { return (ld) x[i]; }, [&] (int) { return (ld) 0; });
  Z = mk (x);
  t8_ax (Z, al);
  each (Z, "ax", [&] (int i) { return (ld) x[i] * al; }, [&] (int i) { return fabsl ((ld) x[i] * al); });
  t8_axy (X, Z, al);
  each (Z, "axy", [&] (int i) { return (ld) x[i] * al; }, [&] (int i) { return fabsl ((ld) x[i] * al); });
  t8_axb (X, Z, al, be);
  each (Z, "axb", [&] (int i) { return (ld) x[i] * al + be; }, [&] (int i) { return fabsl ((ld) x[i] * al) + fabsl (be); });
  Z = mk (y);
  t8_axpy (X, Z, al);
  each (Z, "axpy", [&] (int i) { return (ld) x[i] * al + y[i]; }, [&] (int i) { return fabsl ((ld) x[i] * al) + fabsl (y[i]); });
  t8_axpyz (X, Y, Z, al);
  each (Z, "axpyz", [&] (int i) { return (ld) x[i] * al + y[i]; }, [&] (int i) { return fabsl ((ld) x[i] * al) + fabsl (y[i]); });
  t8_diff (X, Y, Z);
  each (Z, "diff", [&] (int i) { return (ld) x[i] - y[i]; }, [&] (int i) { return fabsl (x[i]) + fabsl (y[i]); });
  for (int k = 0; k < 3; ++k) {
    std::vector<double> w = x;
    const double tol = r.chance (0.3) ? 0 : std::fabs (num (r, 1)) * (mode == 2 ? 1e30 : 1);
    if (n)
      w[r.below (n)] += r.chance (0.3) ? 0 : (r.chance (0.5) ? tol * 0.5 : -2 * tol - 1e-3);
    bool want = true;
    for (int i = 0; i < n; ++i)
      want = want && std::fabs (x[i] - w[i]) <= tol;
    VF_CHECK (!!t8_eq (X, mk (w), tol) == want, "eq", "equality with tolerance %.17g", tol);
  }
  if (lnorm (x) > 0) {
    Z = mk (x);
    t8_normalize (Z);
    each (Z, "normalize", [&] (int i) { return (ld) x[i] / lnorm (x); }, [&] (int i) { return 4 * fabsl (x[i] / lnorm (x)); });
    const double len = std::fabs (be) + 0.5;
    Z = mk (x);
    t8_rescale (Z, len);
    each (Z, "rescale", [&] (int i) { return (ld) x[i] / lnorm (x) * len; }, [&] (int i) { return 4 * fabsl (x[i] / lnorm (x) * len); });
  }
  VF_CHECK (back (X) == x && back (Y) == y, "inputs-changed", "the inputs were changed");
}

template <class V>
static void
vectors3 (Rng &r, const char *kind, bool c_api)
{
  const int mode = r.range (0, 1);
  std::vector<double> x = vec (r, 3, mode), y = vec (r, 3, mode), z = vec (r, 3, mode);
  auto mk = [&] (const std::vector<double> &v) {
    V o {};
    if constexpr (requires { o.resize (1); })
      o.resize (3);
    std::copy (v.begin (), v.end (), std::begin (o));
    return o;
  };
  ctx ("%s x %s y %s z %s", kind, str (x).c_str (), str (y).c_str (), str (z).c_str ());
  V X = mk (x), Y = mk (y), Z = mk (z), C = mk (x), D = mk (x);
  auto lcross = [&] (const std::vector<double> &a, const std::vector<double> &b) {
    return std::array<ld, 3> { (ld) a[1] * b[2] - (ld) a[2] * b[1], (ld) a[2] * b[0] - (ld) a[0] * b[2], (ld) a[0] * b[1] - (ld) a[1] * b[0] };
  };
  count ("vectors3");
  if (c_api)
    cc_cross3 (&X[0], &Y[0], &C[0]);
  else
    t8_cross_3D (X, Y, C);
  auto w = lcross (x, y);
  for (int i = 0; i < 3; ++i)
    VF_CHECK (near_ld (C[i], w[i], lnorm (x) * lnorm (y)), "cross3", "cross product entry %d is %.17g instead of %.17Lg", i, C[i], w[i]);
  const double c2 = c_api ? cc_cross2 (&X[0], &Y[0]) : t8_cross_2D (X, Y);
  VF_CHECK (near_ld (c2, w[2], lnorm (x) * lnorm (y)), "cross2", "2D cross product");
  /* normal of a triangle */
  std::vector<double> a = { y[0] - x[0], y[1] - x[1], y[2] - x[2] }, b = { z[0] - x[0], z[1] - x[1], z[2] - x[2] };
  auto nn = lcross (a, b);
  if (c_api)
    cc_normal (&X[0], &Y[0], &Z[0], &C[0]);
  else
    t8_normal_of_tri (X, Y, Z, C);
  for (int i = 0; i < 3; ++i)
    VF_CHECK (near_ld (C[i], nn[i], (lnorm (x) + lnorm (y)) * (lnorm (x) + lnorm (z))), "normal", "normal of a triangle, entry %d is %.17g instead of %.17Lg", i, C[i], nn[i]);
  /* tripod */
  if (r.chance (0.3)) {
    double s = num (r, mode);
    for (int i = 0; i < 3; ++i)
      x[i] = r.chance (0.5) ? s : -s;
    if (r.chance (0.3))
      x[r.below (3)] += 1e-9;
    X = mk (x);
  }
  if (lnorm (x) > 0) {
    if (c_api)
      cc_tripod (&X[0], &C[0], &D[0]);
    else
      t8_orthogonal_tripod (X, C, D);
    std::vector<double> v2 (std::begin (C), std::end (C)), v3 (std::begin (D), std::end (D));
    bool ok = near_ld (lnorm (v2), 1, 1) && near_ld (lnorm (v3), 1, 1) && fabsl (ldot (v2, v3)) < 1e-12 && fabsl (ldot (x, v2)) < 1e-12 * lnorm (x)
              && fabsl (ldot (x, v3)) < 1e-12 * lnorm (x);
    auto q = lcross (x, v2);
    for (int i = 0; i < 3; ++i)
      ok = ok && fabsl (q[i] / lnorm (x) - v3[i]) < 1e-12;
    VF_CHECK (ok, "tripod", "tripod of %s is %s %s", str (x).c_str (), str (v2).c_str (), str (v3).c_str ());
    VF_CHECK (std::equal (x.begin (), x.end (), std::begin (X)), "tripod-input", "the first vector was changed");
    count ("tripods");
  }
  if constexpr (!std::is_same_v<V, std::list<double>>) {
    if (!c_api) {
      /* four points: in a plane or clearly not */
      std::vector<double> p = vec (r, 3, 1), u = vec (r, 3, 1), v = vec (r, 3, 1), nrm = { u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0] };
      const bool flat = r.chance (0.5);
      std::vector<std::vector<double>> P;
      for (int k = 0; k < 4; ++k) {
        std::vector<double> q (3);
        double s = k ? num (r, 1) : 0, t = k ? num (r, 1) : 0, h = flat || k != 3 ? 0 : (r.chance (0.5) ? 1 : -1);
        for (int i = 0; i < 3; ++i)
          q[i] = p[i] + s * u[i] + t * v[i] + h * nrm[i];
        P.push_back (q);
      }
      /* |A| |det (A, B, C)| decides */
      std::vector<double> A (3), B (3), Cc (3);
      for (int i = 0; i < 3; ++i) {
        A[i] = P[1][i] - P[0][i];
        B[i] = P[2][i] - P[0][i];
        Cc[i] = P[3][i] - P[0][i];
      }
      auto bc = lcross (B, Cc);
      ld det = fabsl (A[0] * bc[0] + A[1] * bc[1] + A[2] * bc[2]) * lnorm (A);
      const double tol = 1e-10;
      if (det < 1e-13 || det > 1e-7) {
        const int got = t8_four_points_coplanar (mk (P[0]), mk (P[1]), mk (P[2]), mk (P[3]), tol);
        VF_CHECK (!!got == (det < tol), "coplanar", "four points %s: coplanar %d, but |A| |det| is %Lg", flat ? "in a plane" : "not in a plane", got, det);
        count ("coplanar");
      }
    }
  }
}

static void
c_vectors (Rng &r)
{
  const int mode = r.range (0, 2);
  std::vector<double> x = vec (r, 3, mode), y = vec (r, 3, mode), z (3), w (3);
  const double al = num (r, r.range (0, 1)), be = num (r, mode);
  ctx ("C interface x %s y %s alpha %.17g b %.17g", str (x).c_str (), str (y).c_str (), al, be);
  count ("c_vectors");
  t8_3D_vec X = { x[0], x[1], x[2] }, Y = { y[0], y[1], y[2] }, Z;
  auto same = [&] (const char *k) {
    VF_CHECK (z[0] == Z[0] && z[1] == Z[1] && z[2] == Z[2], k, "C interface gives %s, C++ %.17g %.17g %.17g", str (z).c_str (), Z[0], Z[1], Z[2]);
  };
  VF_CHECK (cc_norm (x.data ()) == t8_norm (X), "c-norm", "norm");
  VF_CHECK (cc_dist (x.data (), y.data ()) == t8_dist (X, Y), "c-dist", "dist");
  VF_CHECK (cc_dot (x.data (), y.data ()) == t8_dot (X, Y), "c-dot", "dot");
  VF_CHECK (!!cc_eq (x.data (), y.data (), 0.5) == !!t8_eq (X, Y, 0.5), "c-eq", "eq");
  z = y;
  cc_copy (x.data (), z.data ());
  Z = X;
  same ("c-copy");
  cc_ax (z.data (), al);
  t8_ax (Z, al);
  same ("c-ax");
  cc_axy (y.data (), z.data (), al);
  t8_axy (Y, Z, al);
  same ("c-axy");
  cc_axb (x.data (), z.data (), al, be);
  t8_axb (X, Z, al, be);
  same ("c-axb");
  cc_axpy (y.data (), z.data (), al);
  t8_axpy (Y, Z, al);
  same ("c-axpy");
  cc_axpyz (x.data (), y.data (), z.data (), al);
  t8_axpyz (X, Y, Z, al);
  same ("c-axpyz");
  cc_diff (x.data (), y.data (), z.data ());
  t8_diff (X, Y, Z);
  same ("c-diff");
  if (lnorm (x) > 0) {
    z = x;
    Z = X;
    cc_normalize (z.data ());
    t8_normalize (Z);
    same ("c-normalize");
    z = x;
    Z = X;
    cc_rescale (z.data (), std::fabs (al) + 0.1);
    t8_rescale (Z, std::fabs (al) + 0.1);
    same ("c-rescale");
  }
  z = x;
  w = y;
  cc_swap (z.data (), w.data ());
  VF_CHECK (z == y && w == x, "c-swap", "swap");
}

static void
matrices (Rng &r)
{
  const double a = (r.unit () * 2 - 1) * (r.chance (0.2) ? 1000 : 7);
  double m[3][3], n[3][3], p[3][3], v[3], w[3];
  count ("matrices");
  const int ax = r.range (0, 2);
  auto init = [] (int k, double mm[3][3], double ang) { k == 0 ? t8_mat_init_xrot (mm, ang) : k == 1 ? t8_mat_init_yrot (mm, ang) : t8_mat_init_zrot (mm, ang); };
  init (ax, m, a);
  ctx ("rotation axis %d angle %.17g", ax, a);
  /* right-handed rotation: axis fixed, next axis goes to cos, sin */
  for (int j = 0; j < 3; ++j) {
    double e[3] = { 0, 0, 0 };
    e[j] = 1;
    t8_mat_mult_vec (m, e, w);
    double want[3] = { 0, 0, 0 };
    if (j == ax)
      want[j] = 1;
    else if (j == (ax + 1) % 3)
      want[j] = std::cos (a), want[(ax + 2) % 3] = std::sin (a);
    else
      want[j] = std::cos (a), want[(ax + 1) % 3] = -std::sin (a);
    for (int i = 0; i < 3; ++i)
      VF_CHECK (near_ld (w[i], want[i], 1), "rotation", "image of axis %d, entry %d is %.17g instead of %.17g", j, i, w[i], want[i]);
  }
  for (auto *q : { &m, &n })
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        (*q)[i][j] = num (r, r.range (0, 1));
  for (int i = 0; i < 3; ++i)
    v[i] = num (r, r.range (0, 1));
  for (int i = 0; i < 9; ++i)
    (&p[0][0])[i] = 1e300;
  t8_mat_mult_mat (m, n, p);
  t8_mat_mult_vec (m, v, w);
  for (int i = 0; i < 3; ++i) {
    ld s = 0, t = 0;
    for (int k = 0; k < 3; ++k) {
      s += (ld) m[i][k] * v[k];
      t += fabsl ((ld) m[i][k] * v[k]);
    }
    VF_CHECK (near_ld (w[i], s, t), "mat-vec", "matrix-vector product entry %d is %.17g instead of %.17Lg", i, w[i], s);
    for (int j = 0; j < 3; ++j) {
      s = t = 0;
      for (int k = 0; k < 3; ++k) {
        s += (ld) m[i][k] * n[k][j];
        t += fabsl ((ld) m[i][k] * n[k][j]);
      }
      VF_CHECK (near_ld (p[i][j], s, t), "mat-mat", "matrix product entry %d %d is %.17g instead of %.17Lg", i, j, p[i][j], s);
    }
  }
}

static size_t
split_cat_fn (sc_array_t *a, size_t i, void *data)
{
  return (size_t) ((*(int *) sc_array_index (a, i)) / *(int *) data);
}
template <class C>
static void
split (Rng &r)
{
  const int maxn = sizeof (C) == 1 ? 120 : 400;
  const int n = r.range (1, r.chance (0.3) ? 4 : maxn), width = r.range (1, 5), nc = r.range (1, r.chance (0.3) ? 3 : (sizeof (C) == 1 ? 100 : 300));
  std::vector<int> v;
  const int mode = r.range (0, 2);
  for (int i = 0; i < n; ++i)
    v.push_back (mode == 0 ? (int) r.below (nc * width) : mode == 1 ? (int) r.below (std::min (nc * width, 3)) : nc * width - 1 - (int) r.below (std::min (nc * width, 3)));
  std::sort (v.begin (), v.end ());
  std::vector<C> off (nc + 1, (C) 77);
  ctx ("split %d values, %d categories of width %d", n, nc, width);
  seen ("splits", comb (hash_bytes (v.data (), n * 4), comb (nc, width)));
  count ("splits");
  vector_split (v.begin (), v.end (), off, std::function<C (int, int)> ([] (int x, int w) { return (C) (x / w); }), width);
  for (int c = 0; c <= nc; ++c) {
    const size_t want = std::lower_bound (v.begin (), v.end (), c * width) - v.begin ();
    VF_CHECK ((size_t) off[c] == want, "split", "offset of category %d is %zu instead of %zu", c, (size_t) off[c], want);
  }
  (void) split_cat_fn;
}

struct tagA
{
};
using SInt = T8Type<i64, tagA, Addable, Subtractable, AddAssignable, Multipliable, Dividable, PrefixDecrementable, PrefixIncrementable, EqualityComparable, Swapable, Hashable>;
using SVec = T8Type<std::vector<double>, tagA, EqualityComparable, Swapable, RandomAccessible>;

static void
types (Rng &r)
{
  const i64 a = r.range (-1000000, 1000000), b = r.chance (0.1) ? a : r.range (-1000000, 1000000);
  SInt x (a), y (b);
  count ("types");
  ctx ("strong type %lld %lld", (long long) a, (long long) b);
  VF_CHECK ((x + y).get () == a + b && (x - y).get () == a - b && (x * y).get () == a * b && (b == 0 || (x / y).get () == a / b), "type-arith", "arithmetic");
  VF_CHECK ((x == y) == (a == b) && (x != y) == (a != b), "type-eq", "comparison");
  SInt z = x;
  z += y;
  VF_CHECK (z.get () == a + b, "type-assign", "+=");
  VF_CHECK ((++z).get () == a + b + 1 && z.get () == a + b + 1 && (--z).get () == a + b && z.get () == a + b, "type-inc", "increment");
  x.swap (x, y);
  VF_CHECK (x.get () == b && y.get () == a, "type-swap", "swap");
  VF_CHECK (std::hash<SInt> {}(SInt (a)) == std::hash<SInt> {}(SInt (a)), "type-hash", "hash");
  std::vector<double> v = vec (r, r.range (1, 6), 1);
  SVec s (v);
  for (size_t i = 0; i < v.size (); ++i)
    VF_CHECK (s[i] == v[i], "type-index", "index %zu", i);
  s[0] = 42;
  VF_CHECK (s.get ()[0] == 42, "type-index-write", "write by index");
  std::vector<size_t> seq;
  unrolled_for (2, 7, it, { seq.push_back (it); });
  VF_CHECK ((seq == std::vector<size_t> { 2, 3, 4, 5, 6 }), "unrolled-for", "order of an unrolled loop");
}

static void
refcounts (Rng &r)
{
  const int before = held_blocks ();
  t8_refcount_t *rc = r.chance (0.5) ? t8_refcount_new () : NULL, own;
  const bool alloc = rc != NULL;
  if (!rc) {
    memset (&own, r.range (0, 255), sizeof own);
    rc = &own;
    t8_refcount_init (rc);
  }
  int n = 1;
  count ("refcounts");
  for (int i = 0; i < 60 && n > 0; ++i) {
    VF_CHECK (!!t8_refcount_is_active (rc) == (n > 0) && !!t8_refcount_is_last (rc) == (n == 1), "refcount-state", "count %d: active %d last %d", n,
              t8_refcount_is_active (rc), t8_refcount_is_last (rc));
    if (r.chance (0.55)) {
      t8_refcount_ref (rc);
      ++n;
    }
    else {
      int z = t8_refcount_unref (rc);
      --n;
      VF_CHECK (!!z == (n == 0), "refcount-unref", "count %d: unref returned %d", n, z);
    }
  }
  while (n > 0) {
    int z = t8_refcount_unref (rc);
    --n;
    VF_CHECK (!!z == (n == 0), "refcount-unref", "count %d: unref returned %d", n, z);
  }
  VF_CHECK (!t8_refcount_is_active (rc) && !t8_refcount_is_last (rc), "refcount-end", "active at 0");
  if (alloc)
    t8_refcount_destroy (rc);
  VF_CHECK (held_blocks () == before, "refcount-leak", "blocks held");
}

static void
tables ()
{
  ctx ("class tables");
  /* C and C++ see the same tables */
  const int *cpp[18] = { t8_eclass_to_dimension, t8_eclass_num_faces, t8_eclass_max_num_faces, t8_eclass_max_num_children, &t8_face_vertex_to_tree_vertex[0][0][0],
                         &t8_face_edge_to_tree_edge[0][0][0], &t8_face_to_edge_neighbor[0][0][0], &t8_edge_vertex_to_tree_vertex[0][0][0], &t8_edge_to_face[0][0][0],
                         &t8_eclass_face_orientation[0][0], &t8_reference_face_normal_tet[0][0], t8_eclass_num_vertices, t8_eclass_num_edges, t8_eclass_vtk_type,
                         &t8_eclass_vtk_to_t8_corner_number[0][0], &t8_eclass_t8_to_vtk_corner_number[0][0], &t8_eclass_face_types[0][0],
                         &t8_eclass_boundary_count[0][0] };
  for (int k = 0; k < 18; ++k) {
    int n;
    const int *c = cc_table (k, &n);
    for (int i = 0; i < n; ++i) {
      VF_CHECK (c[i] == cpp[k][i], "table-c", "table %d entry %d: C %d, C++ %d", k, i, c[i], cpp[k][i]);
      count ("table_entries");
    }
  }
  const int maxchildren[8] = { 1, 2, 4, 4, 8, 8, 8, 10 }, vtk[8] = { 1, 3, 9, 5, 12, 10, 13, 14 };
  for (int c = 0; c < 8; ++c) {
    VF_CHECK (!strcasecmp (t8_eclass_to_string[c], c == TRI ? "triangle" : S_NAME[c]) && !strcmp (cc_name (c), t8_eclass_to_string[c]), "name", "class %d is called %s", c,
              t8_eclass_to_string[c]);
    VF_CHECK (t8_eclass_to_dimension[c] == S_DIM[c] && t8_eclass_num_faces[c] == S_NF[c] && t8_eclass_num_vertices[c] == S_NV[c]
                && t8_eclass_max_num_children[c] == maxchildren[c] && t8_eclass_vtk_type[c] == vtk[c],
              "counts", "class %s: dimension, number of faces, vertices, children or vtk type", S_NAME[c]);
    VF_CHECK (t8_element_shape_num_faces (c) == S_NF[c] && t8_element_shape_num_vertices (c) == S_NV[c] && t8_element_shape_vtk_type (c) == vtk[c]
                && !strcmp (t8_element_shape_to_string (c), t8_eclass_to_string[c]),
              "shape", "shape functions of %s", S_NAME[c]);
    VF_CHECK (t8_eclass_max_num_faces[S_DIM[c]] >= S_NF[c] && t8_element_shape_max_num_faces (S_DIM[c]) >= S_NF[c], "max-faces", "%s", S_NAME[c]);
    VF_CHECK (S_DIM[c] == 0 || t8_element_shape_max_num_corner[S_DIM[c]] >= S_NV[c], "max-corners", "%s", S_NAME[c]);
    VF_CHECK (t8_eclass_is_valid ((t8_eclass_t) c), "valid", "%s", S_NAME[c]);
    /* vtk numbering: inverse tables; vtk numbers quads around and has right-handed tetrahedra */
    for (int i = 0; i < S_NV[c]; ++i) {
      const int v = t8_eclass_t8_to_vtk_corner_number[c][i];
      VF_CHECK (v >= 0 && v < S_NV[c] && t8_eclass_vtk_to_t8_corner_number[c][v] == i && t8_element_shape_t8_to_vtk_corner_number (c, i) == v, "vtk-corner", "%s corner %d", S_NAME[c], i);
    }
    static const int V[8][8] = { { 0 }, { 0, 1 }, { 0, 1, 3, 2 }, { 0, 1, 2 }, { 0, 1, 3, 2, 4, 5, 7, 6 }, { 0, 2, 1, 3 }, { 0, 2, 1, 3, 5, 4 }, { 0, 1, 3, 2, 4 } };
    for (int i = 0; i < S_NV[c]; ++i)
      VF_CHECK (t8_eclass_t8_to_vtk_corner_number[c][i] == V[c][i], "vtk-order", "%s corner %d is vtk corner %d", S_NAME[c], i, t8_eclass_t8_to_vtk_corner_number[c][i]);
    std::set<std::set<int>> edges; /* pairs of corners on two faces (3D), or faces (2D) */
    for (int f = 0; f < S_NF[c]; ++f) {
      VF_CHECK (t8_eclass_face_types[c][f] == S_FSHAPE[c][f], "face-type", "%s face %d", S_NAME[c], f);
      for (int i = 0; i < face_nv (c, f); ++i)
        VF_CHECK (t8_face_vertex_to_tree_vertex[c][f][i] == S_FV[c][f][i], "face-vertex", "%s face %d vertex %d is %d", S_NAME[c], f, i, t8_face_vertex_to_tree_vertex[c][f][i]);
      if (S_DIM[c] == 3) {
        /* orientation: does (v1 - v0) x (v2 - v0) point inwards? */
        P3 p[3], mid = { 0, 0, 0 };
        for (int i = 0; i < 3; ++i)
          for (int d = 0; d < 3; ++d)
            p[i][d] = S_REF[c][S_FV[c][f][i]][d] * S_NV[c];
        for (int i = 0; i < S_NV[c]; ++i)
          for (int d = 0; d < 3; ++d)
            mid[d] += S_REF[c][i][d];
        P3 a = sub (p[1], p[0]), b = sub (p[2], p[0]), m = sub (mid, p[0]);
        i64 s = (a[1] * b[2] - a[2] * b[1]) * m[0] + (a[2] * b[0] - a[0] * b[2]) * m[1] + (a[0] * b[1] - a[1] * b[0]) * m[2];
        VF_CHECK (t8_eclass_face_orientation[c][f] == (s > 0 ? 0 : 1), "face-orientation", "%s face %d: %d", S_NAME[c], f, t8_eclass_face_orientation[c][f]);
        if (c == TET) {
          i64 n = 0;
          const int *q = t8_reference_face_normal_tet[f];
          for (int d = 0; d < 3; ++d)
            n += q[d] * m[d];
          /* its direction is that of the face normal */
          i64 x = q[0] * a[0] + q[1] * a[1] + q[2] * a[2], y = q[0] * b[0] + q[1] * b[1] + q[2] * b[2];
          VF_CHECK (x == 0 && y == 0 && n != 0, "tet-normal", "face %d", f);
        }
        for (int g = 0; g < f; ++g) {
          std::set<int> e;
          for (int i = 0; i < face_nv (c, f); ++i)
            for (int j = 0; j < face_nv (c, g); ++j)
              if (S_FV[c][f][i] == S_FV[c][g][j])
                e.insert (S_FV[c][f][i]);
          if (e.size () == 2)
            edges.insert (e);
        }
      }
      else if (S_DIM[c] == 2)
        edges.insert ({ S_FV[c][f][0], S_FV[c][f][1] });
    }
    if (S_DIM[c] >= 2)
      VF_CHECK (t8_eclass_num_edges[c] == (int) edges.size (), "num-edges", "%s has %d edges instead of %zu", S_NAME[c], t8_eclass_num_edges[c], edges.size ());
    if (S_DIM[c] == 2 || (S_DIM[c] == 3 && c != PYR)) {
      std::set<std::set<int>> got;
      for (int e = 0; e < t8_eclass_num_edges[c]; ++e) {
        std::set<int> ev = { t8_edge_vertex_to_tree_vertex[c][e][0], t8_edge_vertex_to_tree_vertex[c][e][1] };
        VF_CHECK (edges.count (ev), "edge-vertices", "%s edge %d: corners %d %d are no edge", S_NAME[c], e, *ev.begin (), *ev.rbegin ());
        VF_CHECK (got.insert (ev).second, "edge-twice", "%s edge %d appears twice", S_NAME[c], e);
        auto on = [&] (int f) {
          int n = 0;
          for (int i = 0; i < face_nv (c, f); ++i)
            n += ev.count (S_FV[c][f][i]);
          return n == 2;
        };
        if (S_DIM[c] == 3) {
          const int a = t8_edge_to_face[c][e][0], b = t8_edge_to_face[c][e][1];
          VF_CHECK (a != b && on (a) && on (b), "edge-faces", "%s edge %d is not the edge of the faces %d and %d", S_NAME[c], e, a, b);
        }
        else
          VF_CHECK (on (t8_edge_to_face[c][e][0]), "edge-faces", "%s edge %d", S_NAME[c], e);
      }
      for (int f = 0; f < S_NF[c]; ++f) {
        std::set<int> fv (S_FV[c][f], S_FV[c][f] + face_nv (c, f)), fe, want;
        for (int e = 0; e < t8_eclass_num_edges[c]; ++e)
          if (fv.count (t8_edge_vertex_to_tree_vertex[c][e][0]) && fv.count (t8_edge_vertex_to_tree_vertex[c][e][1]))
            want.insert (e);
        const int ne = S_DIM[c] == 2 ? 1 : face_nv (c, f);
        for (int i = 0; i < ne; ++i)
          fe.insert (t8_face_edge_to_tree_edge[c][f][i]);
        VF_CHECK (fe == want, "face-edges", "%s face %d lists other edges than those between its corners", S_NAME[c], f);
        for (int i = 0; i < face_nv (c, f); ++i) {
          const int e = t8_face_to_edge_neighbor[c][f][i], v = S_FV[c][f][i];
          VF_CHECK (e >= 0 && e < t8_eclass_num_edges[c] && (t8_edge_vertex_to_tree_vertex[c][e][0] == v || t8_edge_vertex_to_tree_vertex[c][e][1] == v) && !want.count (e),
                    "edge-neighbor", "%s face %d corner %d: edge %d does not leave the face at this corner", S_NAME[c], f, i, e);
        }
      }
    }
    /* boundary objects per class */
    int want[8] = { 0 };
    if (S_DIM[c] >= 1)
      want[0] = S_NV[c];
    if (S_DIM[c] >= 2)
      want[1] = (int) edges.size ();
    if (S_DIM[c] == 3)
      for (int f = 0; f < S_NF[c]; ++f)
        ++want[S_FSHAPE[c][f]];
    for (int md = 0; md <= 3; ++md) {
      int per[8], tot = 0;
      int s = t8_eclass_count_boundary ((t8_eclass_t) c, md, per);
      for (int k = 0; k < 8; ++k) {
        const int w = S_DIM[k] >= md ? want[k] : 0;
        VF_CHECK (per[k] == w, "boundary-count", "%s has %d boundary objects of class %s instead of %d", S_NAME[c], per[k], S_NAME[k], w);
        tot += w;
      }
      VF_CHECK (s == tot, "boundary-sum", "%s: %d boundary objects instead of %d", S_NAME[c], s, tot);
    }
    /* order of the classes of a dimension: Tri < Quad, Tet < Hex < Prism < Pyramid */
    static const int rank[8] = { 0, 0, 1, 0, 1, 0, 2, 3 };
    for (int k = 0; k < 8; ++k)
      if (S_DIM[k] == S_DIM[c]) {
        const int w = rank[c] < rank[k] ? -1 : rank[c] > rank[k];
        VF_CHECK (t8_eclass_compare ((t8_eclass_t) c, (t8_eclass_t) k) == w && t8_element_shape_compare ((t8_element_shape_t) c, (t8_element_shape_t) k) == w, "compare",
                  "%s against %s", S_NAME[c], S_NAME[k]);
        count ("compares");
      }
  }
  VF_CHECK (!t8_eclass_is_valid (T8_ECLASS_COUNT) && !t8_eclass_is_valid (T8_ECLASS_INVALID), "invalid", "invalid class accepted");
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  tables ();
  Rng shape (comb (st ().seed, 3001 + st ().rank));
  const i64 nc = (i64) (opt_int ("n", 400) * st ().scale);
  for (i64 k = 0; k < nc && !st ().nviol; ++k) {
    Rng r (comb (shape.next (), k));
    count ("cases");
    vectors<std::array<double, 3>> (r, "array3", 3);
    vectors<std::array<double, 2>> (r, "array2", 2);
    vectors<std::array<double, 5>> (r, "array5", 5);
    vectors<std::vector<double>> (r, "vector", r.range (1, 9));
    vectors<std::list<double>> (r, "list", r.range (1, 6));
    for (int i = 0; i < 4; ++i) {
      vectors3<std::array<double, 3>> (r, "array3", false);
      vectors3<std::vector<double>> (r, "vector", false);
      vectors3<std::array<double, 3>> (r, "C", true);
    }
    c_vectors (r);
    matrices (r);
    split<uint8_t> (r);
    split<uint32_t> (r);
    split<size_t> (r);
    types (r);
    refcounts (r);
  }
  return finish ();
}
