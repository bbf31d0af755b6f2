/* Independent tables and exact integer geometry of the eight element shapes (not taken from the library). */
#ifndef VERIF_SHAPES_HXX
#define VERIF_SHAPES_HXX
#include "common.hxx"
#include <t8_eclass/t8_eclass.h>
#include <t8_schemes/t8_scheme.hxx>
#include <t8_schemes/t8_default/t8_default.hxx>
#include <t8_schemes/t8_standalone/t8_standalone.hxx>
#include <array>

namespace vf
{
typedef __int128 i128;
enum { VERTEX = 0, LINE, QUAD, TRI, HEX, TET, PRISM, PYR };
static const int S_DIM[8] = { 0, 1, 2, 2, 3, 3, 3, 3 };
static const int S_NV[8] = { 1, 2, 4, 3, 8, 4, 6, 5 };
static const int S_NF[8] = { 0, 2, 4, 3, 6, 4, 5, 5 };
/* corners of face f of a shape, -1 terminated */
static const int S_FV[8][6][4] = {
  { { -1, -1, -1, -1 }, { -1, -1, -1, -1 }, { -1, -1, -1, -1 }, { -1, -1, -1, -1 }, { -1, -1, -1, -1 }, { -1, -1, -1, -1 } },
  { { 0, -1, -1, -1 }, { 1, -1, -1, -1 }, { -1, -1, -1, -1 }, { -1, -1, -1, -1 }, { -1, -1, -1, -1 }, { -1, -1, -1, -1 } },
  { { 0, 2, -1, -1 }, { 1, 3, -1, -1 }, { 0, 1, -1, -1 }, { 2, 3, -1, -1 }, { -1, -1, -1, -1 }, { -1, -1, -1, -1 } },
  { { 1, 2, -1, -1 }, { 0, 2, -1, -1 }, { 0, 1, -1, -1 }, { -1, -1, -1, -1 }, { -1, -1, -1, -1 }, { -1, -1, -1, -1 } },
  { { 0, 2, 4, 6 }, { 1, 3, 5, 7 }, { 0, 1, 4, 5 }, { 2, 3, 6, 7 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 } },
  { { 1, 2, 3, -1 }, { 0, 2, 3, -1 }, { 0, 1, 3, -1 }, { 0, 1, 2, -1 }, { -1, -1, -1, -1 }, { -1, -1, -1, -1 } },
  { { 1, 2, 4, 5 }, { 0, 2, 3, 5 }, { 0, 1, 3, 4 }, { 0, 1, 2, -1 }, { 3, 4, 5, -1 }, { -1, -1, -1, -1 } },
  { { 0, 2, 4, -1 }, { 1, 3, 4, -1 }, { 0, 1, 4, -1 }, { 2, 3, 4, -1 }, { 0, 1, 2, 3 }, { -1, -1, -1, -1 } },
};
static const int S_FSHAPE[8][6] = { { -1, -1, -1, -1, -1, -1 }, { 0, 0, -1, -1, -1, -1 },     { 1, 1, 1, 1, -1, -1 },
                                    { 1, 1, 1, -1, -1, -1 },    { 2, 2, 2, 2, 2, 2 },         { 3, 3, 3, 3, -1, -1 },
                                    { 2, 2, 2, 3, 3, -1 },      { 3, 3, 3, 3, 2, -1 } };
/* reference corners */
static const int S_REF[8][8][3] = {
  { { 0, 0, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 0, 1, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 0, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 1, 1, 1 } },
};
static const char *S_NAME[8] = { "vertex", "line", "quad", "tri", "hex", "tet", "prism", "pyramid" };
inline int
face_nv (int shape, int f)
{
  return S_NV[S_FSHAPE[shape][f]];
}

typedef std::array<i64, 3> P3;
inline P3
sub (const P3 &a, const P3 &b)
{
  return P3 { a[0] - b[0], a[1] - b[1], a[2] - b[2] };
}
struct N3
{
  i128 x, y, z;
};
inline N3
cross (const P3 &a, const P3 &b)
{
  return N3 { (i128) a[1] * b[2] - (i128) a[2] * b[1], (i128) a[2] * b[0] - (i128) a[0] * b[2],
              (i128) a[0] * b[1] - (i128) a[1] * b[0] };
}
inline i128
dot (const N3 &n, const P3 &p)
{
  return n.x * p[0] + n.y * p[1] + n.z * p[2];
}
inline i128
det3 (const P3 &a, const P3 &b, const P3 &c)
{
  return dot (cross (a, b), c);
}
inline int
sgn (i128 v)
{
  return v > 0 ? 1 : v < 0 ? -1 : 0;
}

/* d!-scaled signed measure of the affine cell with these corners: parallelepiped spanned by 'axes' times
 * the shape's volume factor; all shapes are affine images of their reference shape. */
static const int S_AX[8][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 2, 0 }, { 1, 2, 0 }, { 1, 2, 4 }, { 1, 2, 3 }, { 1, 2, 3 }, { 1, 2, 4 } };
static const int S_VF[8] = { 6, 6, 6, 3, 6, 1, 3, 2 }; /* volume factor / 6 */
inline i128
signed_measure6 (int shape, const P3 *v)
{
  P3 a = sub (v[S_AX[shape][0]], v[0]), b = sub (v[S_AX[shape][1]], v[0]), c = sub (v[S_AX[shape][2]], v[0]);
  switch (S_DIM[shape]) {
  case 0:
    return S_VF[shape];
  case 1:
    return S_VF[shape] * (i128) a[0];
  case 2:
    return S_VF[shape] * ((i128) a[0] * b[1] - (i128) a[1] * b[0]);
  default:
    return S_VF[shape] * det3 (a, b, c);
  }
}
inline i128
iabs (i128 v)
{
  return v < 0 ? -v : v;
}

/* Is p in the closed (or open) cell?  Decided by the face half-spaces, inside given by the remaining corners. */
inline bool
cell_contains (int shape, const P3 *v, const P3 &p, bool strict)
{
  const int dim = S_DIM[shape];
  if (dim == 0)
    return true;
  for (int f = 0; f < S_NF[shape]; ++f) {
    const int *fv = S_FV[shape][f];
    int opp = -1; /* a corner not on the face */
    for (int i = 0; i < S_NV[shape]; ++i) {
      bool on = false;
      for (int k = 0; k < face_nv (shape, f); ++k)
        on |= fv[k] == i;
      if (!on) {
        opp = i;
        break;
      }
    }
    int so, sp;
    if (dim == 1) {
      so = sgn (v[opp][0] - v[fv[0]][0]);
      sp = sgn (p[0] - v[fv[0]][0]);
    }
    else if (dim == 2) {
      P3 t = sub (v[fv[1]], v[fv[0]]), o = sub (v[opp], v[fv[0]]), q = sub (p, v[fv[0]]);
      so = sgn ((i128) t[0] * o[1] - (i128) t[1] * o[0]);
      sp = sgn ((i128) t[0] * q[1] - (i128) t[1] * q[0]);
    }
    else {
      N3 n = cross (sub (v[fv[1]], v[fv[0]]), sub (v[fv[2]], v[fv[0]]));
      so = sgn (dot (n, sub (v[opp], v[fv[0]])));
      sp = sgn (dot (n, sub (p, v[fv[0]])));
    }
    if (so == 0)
      return false; /* degenerate cell contains nothing */
    if (sp * so < 0 || (strict && sp == 0))
      return false;
  }
  return true;
}

/* is p in the closed face f of the cell v (cell must be non-degenerate)? */
inline bool
face_contains (int shape, const P3 *v, int f, const P3 &p)
{
  const int dim = S_DIM[shape];
  const int *fv = S_FV[shape][f];
  if (dim == 1)
    return p[0] == v[fv[0]][0];
  if (dim == 2) {
    P3 t = sub (v[fv[1]], v[fv[0]]), q = sub (p, v[fv[0]]);
    if ((i128) t[0] * q[1] - (i128) t[1] * q[0] != 0)
      return false;
  }
  else {
    N3 n = cross (sub (v[fv[1]], v[fv[0]]), sub (v[fv[2]], v[fv[0]]));
    if (dot (n, sub (p, v[fv[0]])) != 0)
      return false;
  }
  return cell_contains (shape, v, p, false);
}

/* ---- elements ---- */
struct El
{
  const t8_scheme *s = nullptr;
  t8_eclass_t ec = T8_ECLASS_INVALID;
  t8_element_t *e = nullptr;
  El ()
  {
  }
  /* see known-findings.txt (C17): the default prism and pyramid write standalone quads through a
   * p4est_quadrant_t pointer, which needs 8-byte alignment; with this set, such face elements are
   * picked from aligned storage so that everything behind that finding can be monitored too */
  static inline int align_quads = 0; /* 2: show the finding, pick storage with the other alignment */
  El (const t8_scheme *s_, t8_eclass_t ec_): s (s_), ec (ec_)
  {
    s->element_new (ec, 1, &e);
    if (align_quads && ec == T8_ECLASS_QUAD) {
      std::vector<t8_element_t *> spare;
      while (((uintptr_t) e % 8 != 0) == (align_quads == 1) && spare.size () < 8) {
        spare.push_back (e);
        s->element_new (ec, 1, &e);
      }
      for (t8_element_t *x : spare)
        s->element_destroy (ec, 1, &x);
    }
  }
  El (const t8_scheme *s_, t8_eclass_t ec_, const t8_element_t *src): s (s_), ec (ec_)
  {
    s->element_new (ec, 1, &e);
    s->element_copy (ec, src, e);
  }
  El (const El &o): s (o.s), ec (o.ec)
  {
    if (o.e) {
      s->element_new (ec, 1, &e);
      s->element_copy (ec, o.e, e);
    }
  }
  El (El &&o) noexcept: s (o.s), ec (o.ec), e (o.e)
  {
    o.e = nullptr;
  }
  El &
  operator= (El o) noexcept
  {
    std::swap (s, o.s);
    std::swap (ec, o.ec);
    std::swap (e, o.e);
    return *this;
  }
  ~El ()
  {
    if (e)
      s->element_destroy (ec, 1, &e);
  }
  operator t8_element_t * () const
  {
    return e;
  }
};

/* exact integer vertex coordinates of an element in its tree: reference coords * 2^K, K = max level */
struct Geo
{
  int shape, nv, level;
  P3 v[8];
  bool exact = true;
  int fmap[6] = { 0, 1, 2, 3, 4, 5 }; /* standard number of the scheme's face (differs for pyramids standing on their apex only) */
};
inline Geo
geo_of (const t8_scheme *s, t8_eclass_t ec, const t8_element_t *e, int K)
{
  Geo g;
  g.shape = (int) s->element_get_shape (ec, e);
  g.nv = s->element_get_num_corners (ec, e);
  g.level = s->element_get_level (ec, e);
  const double N = ldexp (1.0, K);
  for (int i = 0; i < g.nv && i < 8; ++i) {
    double c[3] = { 0, 0, 0 };
    s->element_get_vertex_reference_coords (ec, e, i, c);
    for (int d = 0; d < 3; ++d) {
      double x = c[d] * N;
      if (!(fabs (x) < 1e17)) {
        g.exact = false;
        x = 0;
      }
      g.v[i][d] = (i64) llround (x);
      if ((double) g.v[i][d] != x)
        g.exact = false;
    }
  }
  if (g.shape == 7 && g.nv == 5 && g.v[4][2] < g.v[0][2])
    for (int f = 0; f < 4; ++f) {
      std::vector<int> c;
      for (int k = 0; k < 3; ++k)
        c.push_back (s->element_get_face_corner (ec, e, f, k));
      std::sort (c.begin (), c.end ());
      for (int q = 0; q < 4; ++q) {
        std::vector<int> d (S_FV[7][q], S_FV[7][q] + 3);
        std::sort (d.begin (), d.end ());
        if (c == d)
          g.fmap[f] = q;
      }
    }
  return g;
}
inline std::string
geo_str (const Geo &g)
{
  std::string r = std::string (g.shape >= 0 && g.shape < 8 ? S_NAME[g.shape] : "?") + " l" + std::to_string (g.level) + " [";
  for (int i = 0; i < g.nv; ++i)
    r += fmt ("(%lld,%lld,%lld)", (long long) g.v[i][0], (long long) g.v[i][1], (long long) g.v[i][2]);
  return r + "]";
}
inline u64
geo_hash (const Geo &g)
{
  u64 h = mix (g.shape * 64 + g.level);
  for (int i = 0; i < g.nv; ++i)
    for (int d = 0; d < 3; ++d)
      h = comb (h, (u64) g.v[i][d]);
  return h;
}
inline bool
same_geo (const Geo &a, const Geo &b)
{
  if (a.shape != b.shape || a.nv != b.nv || a.level != b.level)
    return false;
  for (int i = 0; i < a.nv; ++i)
    if (a.v[i] != b.v[i])
      return false;
  return true;
}
inline std::vector<P3>
sorted_pts (std::vector<P3> v)
{
  std::sort (v.begin (), v.end ());
  return v;
}
inline std::vector<P3>
face_pts (const Geo &g, int f)
{
  std::vector<P3> r;
  for (int k = 0; k < face_nv (g.shape, f); ++k)
    r.push_back (g.v[S_FV[g.shape][g.fmap[f]][k]]);
  return r;
}
inline const t8_scheme *
make_scheme (int id)
{
  return id == 0 ? t8_scheme_new_default () : t8_scheme_new_standalone ();
}
}  // namespace vf
#endif
