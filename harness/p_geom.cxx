/* C25: geometry maps, C26: measures of elements, C27: point location.
 *   --part=maps    helper functions on random cells and batches, against shape functions in long double
 *   --part=handler coarse meshes mixing geometries, evaluated in random interleavings
 *   --part=curved  built-in curved meshes: neighboring trees agree on common faces, radii
 *   --part=forest  histories of forests over linear and axis-aligned meshes: corners, measures, points */
#include "fcheck.hxx"
#include "geow.hxx"
#include <t8_cmesh/t8_cmesh_examples.h>
#include <t8_cmesh/t8_cmesh_geometry.hxx>
#include <t8_geometry/t8_geometry.h>
#include <t8_geometry/t8_geometry_helpers.h>
#include <t8_geometry/t8_geometry_handler.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear_axis_aligned.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_lagrange.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_analytic.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx>
#include <t8_forest/t8_forest_geometrical.h>
#include <memory>

/* reference positions of the nodes of a Lagrange cell: corners, then as drawn in the documentation */
static std::vector<std::array<double, 3>>
lagrange_nodes (int c, int deg)
{
  std::vector<std::array<double, 3>> n;
  for (int i = 0; i < S_NV[c]; ++i)
    n.push_back ({ (double) S_REF[c][i][0], (double) S_REF[c][i][1], (double) S_REF[c][i][2] });
  if (deg == 1)
    return n;
  const double h = 0.5;
  if (c == LINE)
    n.push_back ({ h, 0, 0 });
  if (c == TRI)
    for (auto p : { std::array<double, 3> { 1, h, 0 }, { h, h, 0 }, { h, 0, 0 } })
      n.push_back (p);
  if (c == QUAD)
    for (auto p : { std::array<double, 3> { 0, h, 0 }, { 1, h, 0 }, { h, 0, 0 }, { h, 1, 0 }, { h, h, 0 } })
      n.push_back (p);
  if (c == HEX)
    for (auto p : { std::array<double, 3> { 0, 1, h }, { 0, 0, h }, { 0, h, 0 }, { 0, h, 1 }, { 0, h, h }, { 1, 0, h }, { 1, 1, h }, { 1, h, 0 },
                    { 1, h, 1 },                       { 1, h, h }, { h, 0, 0 }, { h, 0, 1 }, { h, 0, h }, { h, 1, 0 }, { h, 1, 1 }, { h, 1, h },
                    { h, h, 0 },                       { h, h, 1 }, { h, h, h } })
      n.push_back (p);
  return n;
}
static ld
lag1 (double node, ld x, int deg)
{
  if (deg == 1)
    return node == 0 ? 1 - x : x;
  if (node == 0)
    return (1 - x) * (1 - 2 * x);
  if (node == 1)
    return x * (2 * x - 1);
  return 4 * x * (1 - x);
}
/* the interpolation polynomial: tensor products, or products of barycentric coordinates on the triangle */
static L3
lagrange_map (int c, int deg, const double *v, const double *x)
{
  auto nodes = lagrange_nodes (c, deg);
  L3 p { 0, 0, 0 };
  for (size_t i = 0; i < nodes.size (); ++i) {
    ld w = 1;
    if (c == TRI) {
      ld y[2] = { x[0], x[1] }, L[3], M[3], z[2] = { nodes[i][0], nodes[i][1] };
      shape_weights (TRI, y, L);
      shape_weights (TRI, z, M);
      if (deg == 1)
        w = M[0] * L[0] + M[1] * L[1] + M[2] * L[2];
      else {
        int a[2], na = 0;
        for (int k = 0; k < 3; ++k)
          if (M[k] != 0)
            a[na++] = k;
        w = na == 1 ? L[a[0]] * (2 * L[a[0]] - 1) : 4 * L[a[0]] * L[a[1]];
      }
    }
    else
      for (int d = 0; d < S_DIM[c]; ++d)
        w *= lag1 (nodes[i][d], x[d], deg);
    p = p + w * vtx (v, (int) i);
  }
  return p;
}
/* a point of the reference shape: corners, points on edges and faces, the interior, close to corners */
static void
ref_point (Rng &r, int c, double *x)
{
  const int n = S_NV[c];
  double w[8], s = 0;
  const int kind = r.range (0, 5);
  for (int i = 0; i < n; ++i)
    w[i] = kind == 5 ? std::pow (10, -r.uniform (0, 12)) : r.unit ();
  if (kind == 0) {
    const int k = (int) r.below (n);
    for (int i = 0; i < n; ++i)
      w[i] = i == k;
  }
  else if (kind == 1 && S_NF[c]) {
    const int f = (int) r.below (S_NF[c]);
    for (int i = 0; i < n; ++i) {
      bool on = false;
      for (int k = 0; k < face_nv (c, f); ++k)
        on = on || S_FV[c][f][k] == i;
      if (!on)
        w[i] = 0;
    }
  }
  else if (kind == 2)
    for (int i = 0; i < n; ++i)
      w[i] = (double) r.below (5);
  for (int i = 0; i < n; ++i)
    s += w[i];
  if (s == 0)
    w[0] = s = 1;
  for (int d = 0; d < S_DIM[c]; ++d) {
    x[d] = 0;
    for (int i = 0; i < n; ++i)
      x[d] += w[i] / s * S_REF[c][i][d];
    x[d] = std::min (1., std::max (0., x[d]));
  }
  /* inside also after rounding */
  if (c == TRI || c == PRISM)
    x[1] = std::min (x[1], x[0]);
  if (c == TET)
    x[2] = std::min (x[2], x[0]), x[1] = std::min (x[1], x[2]);
  if (c == PYR)
    x[2] = std::min (x[2], std::min (x[0], x[1]));
}
/* well shaped random cell; affine: parallelepiped-like */
static std::vector<double>
random_cell (Rng &r, int c, bool affine, double &size)
{
  const double sc = std::pow (10., r.range (-3, 3)), off = r.chance (0.4) ? sc * r.uniform (-50, 50) : 0;
  std::vector<double> v;
  for (;;) {
    L3 a[3];
    for (int d = 0; d < 3; ++d)
      for (int e = 0; e < 3; ++e)
        a[d][e] = r.uniform (-1, 1);
    const ld n0 = norml (a[0]), n1 = norml (crossl (a[0], a[1])), n2 = dotl (crossl (a[0], a[1]), a[2]);
    if (!(n0 > 0.2 && n1 > 0.1 && n2 > 0.1))
      continue;
    L3 q[8];
    v.clear ();
    for (int i = 0; i < S_NV[c]; ++i) {
      q[i] = { 0, 0, 0 };
      for (int d = 0; d < 3; ++d)
        q[i] = q[i] + (ld) S_REF[c][i][d] * a[d];
      for (int d = 0; d < 3; ++d) {
        q[i][d] += affine ? 0 : 0.03 * r.uniform (-1, 1);
        v.push_back ((double) (off + sc * q[i][d]));
      }
    }
    if (affine || S_DIM[c] < 3)
      break;
    /* the displaced corners must not turn the cell inside out at its first corner */
    const int j = S_NV[c] == 4 || S_NV[c] == 6 ? 3 : 4;
    const ld det = dotl (crossl (q[1] - q[0], q[2] - q[0]), q[j] - q[0]);
    if ((S_NV[c] == 4 ? -det : det) > 0.02)
      break;
  }
  size = sc + std::fabs (off);
  for (double x : v)
    size = std::max (size, std::fabs (x));
  return v;
}
static std::unique_ptr<double[]>
tight (size_t n)
{
  return std::unique_ptr<double[]> (new double[n]);
}
static bool
near3 (const double *p, const L3 &q, ld tol)
{
  for (int d = 0; d < 3; ++d)
    if (!(fabsl (p[d] - q[d]) <= tol))
      return false;
  return true;
}
static std::string
ps (const double *p)
{
  return fmt ("(%.17g %.17g %.17g)", p[0], p[1], p[2]);
}
static std::string
pls (const L3 &q)
{
  const double p[3] = { (double) q[0], (double) q[1], (double) q[2] };
  return ps (p);
}
static std::string
cell_str (int c, const std::vector<double> &v)
{
  std::string s = S_NAME[c];
  for (size_t i = 0; i < v.size (); i += 3)
    s += " " + ps (&v[i]);
  return s;
}

/* ------------------------------------------------------------------ distance of a point to a convex cell */
struct Planes
{
  std::vector<L3> x, n; /* point and outward unit normal of every face (or edge, in the plane of the cell) */
  L3 nrm;               /* normal of the plane of a flat cell */
  ld size;
};
/* faces of a convex cell with flat faces */
static Planes
planes_of (int c, const std::vector<L3> &v)
{
  Planes P;
  L3 mid { 0, 0, 0 };
  for (auto &p : v)
    mid = mid + (1.0L / v.size ()) * p;
  P.size = 0;
  for (auto &p : v)
    P.size = std::max (P.size, norml (p - mid));
  P.nrm = { 0, 0, 0 };
  if (S_DIM[c] == 2) {
    P.nrm = crossl (v[1] - v[0], v[2] - v[0]);
    P.nrm = (1 / norml (P.nrm)) * P.nrm;
  }
  for (int f = 0; f < S_NF[c]; ++f) {
    const int *fv = S_FV[c][f];
    L3 n;
    if (S_DIM[c] == 1)
      n = v[fv[0]] - v[1 - fv[0]];
    else if (S_DIM[c] == 2)
      n = crossl (v[fv[1]] - v[fv[0]], P.nrm);
    else
      n = crossl (v[fv[1]] - v[fv[0]], v[fv[2]] - v[fv[0]]);
    n = (1 / norml (n)) * n;
    if (dotl (n, mid - v[fv[0]]) > 0)
      n = -1 * n;
    P.x.push_back (v[fv[0]]);
    P.n.push_back (n);
  }
  return P;
}
/* largest signed distance to the faces: < 0 inside */
static ld
planes_dist (const Planes &P, const L3 &p)
{
  ld m = -1e30L;
  for (size_t i = 0; i < P.n.size (); ++i)
    m = std::max (m, dotl (p - P.x[i], P.n[i]));
  return m;
}

/* ------------------------------------------------------------------ part maps */
static void
maps_linear (Rng &r)
{
  const int c = (int) r.below (8), dim = S_DIM[c];
  double size;
  std::vector<double> v = random_cell (r, c, r.chance (0.3), size);
  const size_t n = r.chance (0.2) ? 1 : r.below (9);
  auto x = tight (n * dim), y = tight (3 * n);
  for (size_t i = 0; i < n; ++i)
    ref_point (r, c, &x[i * dim]);
  for (size_t i = 0; i < 3 * n; ++i)
    y[i] = NAN;
  auto vt = tight (v.size ());
  std::copy (v.begin (), v.end (), &vt[0]);
  ctx ("linear map of %s, %zu points", cell_str (c, v).c_str (), n);
  t8_geom_compute_linear_geometry ((t8_eclass_t) c, &vt[0], &x[0], n, &y[0]);
  for (size_t i = 0; i < n; ++i) {
    const L3 q = linear_map (c, &v[0], &x[i * dim]);
    if (!near3 (&y[3 * i], q, 1e-12 * size))
      viol ("linear-map", "point %zu of %zu is %s instead of %s", i, n, ps (&y[3 * i]).c_str (), pls (q).c_str ());
  }
  count ("map_points", n);
  if (n > 1)
    count ("batches");
  /* corners */
  for (int k = 0; k < S_NV[c]; ++k) {
    double ref[3] = { (double) S_REF[c][k][0], (double) S_REF[c][k][1], (double) S_REF[c][k][2] }, out[3] = { NAN, NAN, NAN };
    t8_geom_compute_linear_geometry ((t8_eclass_t) c, &vt[0], ref, 1, out);
    if (!near3 (out, vtx (&v[0], k), 1e-13 * size))
      viol ("corner", "corner %d is mapped to %s", k, ps (out).c_str ());
    for (int d = 0; d < 3; ++d)
      VF_CHECK (t8_element_corner_ref_coords[c][k][d] == ref[d], "corner-table", "corner %d of the reference %s", k, S_NAME[c]);
  }
  for (int f = 0; f < S_NF[c]; ++f) {
    const int nf = face_nv (c, f), cd = r.range (1, 3);
    auto fv = tight (nf * cd), tv = tight (S_NV[c] * cd);
    for (int i = 0; i < S_NV[c] * cd; ++i)
      tv[i] = r.unit ();
    t8_geom_get_face_vertices ((t8_eclass_t) c, &tv[0], f, cd, &fv[0]);
    for (int i = 0; i < nf; ++i)
      for (int d = 0; d < cd; ++d)
        if (fv[i * cd + d] != tv[S_FV[c][f][i] * cd + d])
          viol ("face-vertices", "corner %d of face %d of a %s", i, f, S_NAME[c]);
  }
  if (dim == 3 && c != 7) { /* the library has no edge table for pyramids */
    /* every edge belongs to exactly the two faces the table says and joins two of their corners */
    const int ne = t8_eclass_num_edges[c], e = (int) r.below (ne), cd = r.range (1, 3);
    auto ev = tight (2 * cd), tv = tight (S_NV[c] * cd);
    for (int i = 0; i < S_NV[c] * cd; ++i)
      tv[i] = r.unit ();
    t8_geom_get_edge_vertices ((t8_eclass_t) c, &tv[0], e, cd, &ev[0]);
    int id[2] = { -1, -1 };
    for (int k = 0; k < 2; ++k)
      for (int i = 0; i < S_NV[c]; ++i) {
        bool same = true;
        for (int d = 0; d < cd; ++d)
          same = same && ev[k * cd + d] == tv[i * cd + d];
        if (same)
          id[k] = i;
      }
    int both = 0;
    for (int f = 0; f < S_NF[c]; ++f) {
      int m = 0;
      for (int i = 0; i < face_nv (c, f); ++i)
        m += S_FV[c][f][i] == id[0] || S_FV[c][f][i] == id[1];
      both += m == 2;
    }
    VF_CHECK (id[0] >= 0 && id[1] >= 0 && id[0] < id[1] && both == 2, "edge-vertices", "edge %d of a %s joins corners %d and %d", e, S_NAME[c], id[0],
              id[1]);
  }
  count ("cells");
  seen ("cells", comb (c, hash_bytes (&v[0], v.size () * sizeof (double))));
}
static void
random_box (Rng &r, int c, double *b, int *axes)
{
  /* the axes the cell extends along */
  int m[3] = { 1, 1, 1 };
  if (c == LINE) {
    const int k = r.range (0, 2);
    for (int d = 0; d < 3; ++d)
      m[d] = d == k;
  }
  else if (c == QUAD)
    m[r.range (0, 2)] = 0;
  const double off = r.chance (0.4) ? r.uniform (-20, 20) : 0;
  int na = 0;
  for (int d = 0; d < 3; ++d) {
    b[d] = off + r.uniform (-1, 1);
    b[3 + d] = m[d] ? b[d] + r.uniform (0.01, 3) : b[d];
    if (m[d])
      axes[na++] = d;
  }
}
static L3
box_map (int c, const double *b, const int *axes, const double *x)
{
  L3 p { b[0], b[1], b[2] };
  for (int k = 0; k < S_DIM[c]; ++k)
    p[axes[k]] += (ld) x[k] * ((ld) b[3 + axes[k]] - b[axes[k]]);
  return p;
}
static void
maps_box (Rng &r)
{
  const int c = r.pick (std::vector<int> { LINE, QUAD, HEX }), dim = S_DIM[c];
  auto b = tight (6);
  int axes[3];
  random_box (r, c, &b[0], axes);
  const size_t n = r.chance (0.2) ? 1 : r.below (7);
  auto x = tight (n * dim), y = tight (3 * n);
  for (size_t i = 0; i < n; ++i)
    ref_point (r, c, &x[i * dim]);
  for (size_t i = 0; i < 3 * n; ++i)
    y[i] = NAN;
  ctx ("axis-aligned %s from %s to %s, %zu points", S_NAME[c], ps (&b[0]).c_str (), ps (&b[3]).c_str (), n);
  t8_geom_compute_linear_axis_aligned_geometry ((t8_eclass_t) c, &b[0], &x[0], n, &y[0]);
  for (size_t i = 0; i < n; ++i) {
    const L3 q = box_map (c, &b[0], axes, &x[i * dim]);
    if (!near3 (&y[3 * i], q, 1e-13 * 30))
      viol ("axis-aligned-map", "point %zu of %zu (%.17g ...) is %s instead of %s", i, n, x[i * dim], ps (&y[3 * i]).c_str (), pls (q).c_str ());
  }
  count ("map_points", n);
  count ("boxes");
}
static void
maps_interpolation (Rng &r)
{
  const int dim = r.range (1, 3), cd = r.range (1, 3);
  const bool simplex = dim > 1 && r.chance (0.5);
  const int c = simplex ? (dim == 2 ? TRI : TET) : dim == 1 ? LINE : dim == 2 ? QUAD : HEX;
  auto x = tight (dim), cv = tight (S_NV[c] * cd), out = tight (cd);
  for (int d = 0; d < dim; ++d)
    x[d] = r.chance (0.2) ? (double) r.below (2) : r.uniform (-0.2, 1.2);
  ld size = 0;
  for (int i = 0; i < S_NV[c] * cd; ++i) {
    cv[i] = r.uniform (-5, 5);
    size = std::max (size, (ld) std::fabs (cv[i]));
  }
  ctx ("interpolation on %s, values of dimension %d", S_NAME[c], cd);
  if (simplex)
    t8_geom_triangular_interpolation (&x[0], &cv[0], cd, dim, &out[0]);
  else
    t8_geom_linear_interpolation (&x[0], &cv[0], cd, dim, &out[0]);
  ld w[8], y[3] = { 0, 0, 0 };
  for (int d = 0; d < dim; ++d)
    y[d] = x[d];
  shape_weights (c, y, w);
  for (int k = 0; k < cd; ++k) {
    ld s = 0;
    for (int i = 0; i < S_NV[c]; ++i)
      s += w[i] * cv[i * cd + k];
    VF_CHECK (fabsl (s - out[k]) < 1e-12 * size, "interpolation", "component %d is %.17g instead of %.17Lg", k, out[k], s);
  }
  count ("interpolations");
}
/* rays from the opposite corner through a point of a reference triangle or tetrahedron */
static void
maps_rays (Rng &r)
{
  {
    double x[3] = { 0, 0, 0 }, q[2] = { NAN, NAN };
    const int e = r.range (0, 2);
    ref_point (r, TRI, x);
    if (x[0] == S_REF[TRI][e][0] && x[1] == S_REF[TRI][e][1])
      return;
    ld w[3], y[2] = { x[0], x[1] };
    shape_weights (TRI, y, w);
    if (1 - w[e] < 1e-6) /* the ray through a point next to the corner is ill conditioned */
      return;
    ctx ("ray to edge %d through (%.17g %.17g)", e, x[0], x[1]);
    t8_geom_get_ref_intersection (e, x, q);
    /* the same point has weight 0 for the opposite corner and the others scaled up */
    ld z[2] = { 0, 0 };
    for (int i = 0; i < 3; ++i)
      if (i != e)
        for (int d = 0; d < 2; ++d)
          z[d] += w[i] / (1 - w[e]) * S_REF[TRI][i][d];
    VF_CHECK (fabsl (q[0] - z[0]) < 1e-9 && fabsl (q[1] - z[1]) < 1e-9, "edge-ray", "(%.17g %.17g) instead of (%.17Lg %.17Lg)", q[0], q[1], z[0], z[1]);
    /* and its scaling factor on any triangle with these corners is the share of the way */
    double size;
    std::vector<double> v = random_cell (r, TRI, true, size);
    const double qq[2] = { (double) z[0], (double) z[1] };
    const L3 gi = linear_map (TRI, &v[0], qq), gp = linear_map (TRI, &v[0], x);
    const double a[3] = { (double) gi[0], (double) gi[1], (double) gi[2] }, b[3] = { (double) gp[0], (double) gp[1], (double) gp[2] };
    const double s = t8_geom_get_triangle_scaling_factor (e, &v[0], a, b);
    const ld side = std::min (norml (gi - vtx (&v[0], e)), (ld) 1e300);
    VF_CHECK (fabsl (s - (1 - w[e])) < 1e-9 + 1e-13 * size / side, "edge-scaling", "factor %.17g instead of %.17Lg", s, 1 - w[e]);
  }
  {
    double x[3], q[3] = { NAN, NAN, NAN };
    const int f = r.range (0, 3);
    ref_point (r, TET, x);
    ld w[4], y[3] = { x[0], x[1], x[2] };
    shape_weights (TET, y, w);
    if (1 - w[f] < 1e-6)
      return;
    ctx ("ray to face %d through %s", f, ps (x).c_str ());
    t8_geom_get_tet_face_intersection (f, x, q);
    L3 z { 0, 0, 0 };
    for (int i = 0; i < 4; ++i)
      if (i != f)
        for (int d = 0; d < 3; ++d)
          z[d] += w[i] / (1 - w[f]) * S_REF[TET][i][d];
    VF_CHECK (near3 (q, z, 1e-9), "face-ray", "%s instead of %s", ps (q).c_str (), pls (z).c_str ());
  }
  count ("rays");
}
/* the library's four point tests, for cells of all sizes and positions */
static void
maps_points (Rng &r)
{
  double size;
  const double sc = std::pow (10., r.range (-2, 2));
  (void) size;
  auto rnd = [&] { return L3 { sc * r.uniform (-1, 1), sc * r.uniform (-1, 1), sc * r.uniform (-1, 1) }; };
  auto d3 = [] (const L3 &p, double *o) {
    for (int d = 0; d < 3; ++d)
      o[d] = (double) p[d];
  };
  const double tol = std::pow (10., -r.range (3, 12)) * r.uniform (1, 9);
  const L3 p0 = rnd ();
  double a[3], b[3], c[3], p[3];
  d3 (p0, a);
  const int kind = r.range (0, 3);
  const ld eps = 1e-13L * sc;
  if (kind == 0) {
    L3 dir = rnd ();
    dir = (1 / norml (dir)) * dir;
    const ld dist = r.chance (0.5) ? tol * r.uniform (0, 2) : sc * r.unit ();
    d3 (p0 + dist * dir, p);
    ld real = norml (L3 { p[0], p[1], p[2] } - L3 { a[0], a[1], a[2] });
    ctx ("vertex %s, point %s, tolerance %.17g", ps (a).c_str (), ps (p).c_str (), tol);
    const int in = t8_vertex_point_inside (a, p, tol);
    if (fabsl (real - tol) > eps)
      VF_CHECK ((in != 0) == (real < tol), "vertex-point", "distance %.17Lg answered %d", real, in);
    count (real < tol ? "points_in" : "points_out");
  }
  else if (kind == 1) {
    L3 dir = rnd ();
    if (r.chance (0.4)) /* along an axis, also with small deviations */
      for (int d = 0, k = r.range (0, 2); d < 3; ++d)
        if (d != k)
          dir[d] *= r.pick (std::vector<double> { 0, 0, 1e-17, 1e-14, 1e-9 });
    if (norml (dir) < 1e-3 * sc)
      return;
    d3 (dir, b);
    const L3 v { b[0], b[1], b[2] };
    const ld len = norml (v);
    const ld t = r.pick (std::vector<double> { 0, 1, 0.5, r.unit (), r.unit (), -0.1, 1.2, -1e-2, 1.01 });
    L3 q = L3 { a[0], a[1], a[2] } + t * v;
    const bool away = r.chance (0.3);
    ld da = 0;
    if (away) {
      L3 n = crossl (v, rnd ());
      if (norml (n) < 1e-6 * sc * sc)
        return;
      n = (1 / norml (n)) * n;
      da = r.chance (0.5) ? 50 * tol * std::max ((ld) 1, len) : sc * r.unit ();
      q = q + da * n;
    }
    d3 (q, p);
    ctx ("line %s + %s, point %s (t %.17Lg, %.3Lg away), tolerance %.17g", ps (a).c_str (), ps (b).c_str (), ps (p).c_str (), t, da, tol);
    const int in = t8_line_point_inside (a, b, p, tol);
    const bool inside = t >= 0 && t <= 1 && da == 0;
    if (inside && tol > 20 * eps) {
      VF_CHECK (in, "line-point", "a point of the line is reported outside");
      count ("points_in");
    }
    else if ((da > 20 * tol * std::max ((ld) 1, len) || t < -5 * tol - 1e-10 - 2 * da / len || t > 1 + 5 * tol + 1e-10 + 2 * da / len)) {
      VF_CHECK (!in, "line-point", "a point away from the line is reported inside");
      count ("points_out");
    }
  }
  else if (kind == 2) {
    L3 v = rnd (), w = rnd ();
    if (r.chance (0.5)) { /* in a plane parallel to a coordinate plane */
      const int k = r.range (0, 2);
      v[k] = w[k] = 0;
    }
    if (norml (crossl (v, w)) < 0.05 * norml (v) * norml (w) || norml (v) < 0.05 * sc || norml (w) < 0.05 * sc)
      return;
    d3 (v, b);
    d3 (w, c);
    L3 n = crossl (v, w);
    n = (1 / norml (n)) * n;
    ld x, y;
    switch (r.range (0, 3)) {
    case 0:
      x = r.unit (), y = r.unit () * (1 - x);
      break;
    case 1: /* on an edge or corner */
      x = r.pick (std::vector<double> { 0, 0.5, 1, r.unit () }), y = r.chance (0.5) ? 0 : 1 - x;
      break;
    default:
      x = r.uniform (-1, 2), y = r.uniform (-1, 2);
    }
    const ld up = r.chance (0.7) ? 0 : r.chance (0.5) ? 50 * tol : sc * r.unit ();
    const L3 q = L3 { a[0], a[1], a[2] } + x * v + y * w + up * n;
    d3 (q, p);
    ctx ("triangle %s + %s + %s, point %s (%.17Lg %.17Lg, %.3Lg above), tolerance %.17g", ps (a).c_str (), ps (b).c_str (), ps (c).c_str (),
         ps (p).c_str (), x, y, up, tol);
    const int in = t8_triangle_point_inside (a, b, c, p, tol);
    const ld m = std::min (std::min (x, y), 1 - x - y);
    if (m >= 0 && up == 0 && tol > 1e-11 * std::max (1., sc)) {
      VF_CHECK (in, "triangle-point", "a point of the triangle is reported outside");
      count ("points_in");
    }
    else if ((up == 0 && m < -3 * tol - 1e-9) || up > 10 * tol) {
      VF_CHECK (!in, "triangle-point", "a point away from the triangle is reported inside");
      count ("points_out");
    }
  }
  else {
    L3 n = rnd ();
    if (norml (n) < 1e-2 * sc)
      return;
    n = (1 / norml (n)) * n;
    d3 (n, b);
    const ld h = sc * r.uniform (-1, 1);
    L3 t = crossl (n, rnd ());
    d3 (p0 + h * n + t, p);
    ctx ("plane through %s with normal %s, point %s", ps (a).c_str (), ps (b).c_str (), ps (p).c_str ());
    const int in = t8_plane_point_inside (a, b, p);
    if (fabsl (h) > 1e-12 * sc)
      VF_CHECK ((in != 0) == (h < 0), "plane-point", "height %.17Lg answered %d", h, in);
    count (h < 0 ? "points_in" : "points_out");
  }
  count ("point_tests");
}
static void
part_maps (Rng &r)
{
  if (want ("C25") || st ().prop == "C17") {
    maps_linear (r);
    maps_box (r);
    maps_interpolation (r);
    maps_rays (r);
  }
  if (want ("C27") || st ().prop == "C17")
    for (int i = 0; i < 4; ++i)
      maps_points (r);
}

/* ------------------------------------------------------------------ part handler */
enum { G_LIN = 0, G_BOX, G_LAG, G_ANA, G_ZERO, G_ANA2 };
static const char *G_NAME[] = { "linear", "axis-aligned", "lagrange", "analytic", "zero", "analytic2" };
struct TreeG
{
  int c, g, deg = 1;
  std::vector<double> v;
  int axes[3];
  double size = 1;
  bool neg = false; /* expected answer about negative volume, if asked */
  bool has_neg = false;
};
/* x -> A x + B x^2 + tree offset, coefficients from the user data */
struct Ana
{
  double A[3][3], B[3][3];
};
static void
ana_eval (t8_cmesh_t cm, t8_gloidx_t gt, const double *x, const size_t n, double *out, const void *td, const void *ud)
{
  const Ana *a = (const Ana *) ud;
  const int dim = t8_cmesh_get_dimension (cm);
  const double *off = (const double *) td;
  for (size_t i = 0; i < n; ++i)
    for (int j = 0; j < 3; ++j) {
      double s = off ? off[j] : (double) gt;
      for (int d = 0; d < dim; ++d)
        s += a->A[j][d] * x[i * dim + d] + a->B[j][d] * x[i * dim + d] * x[i * dim + d];
      out[3 * i + j] = s;
    }
}
static void
ana_jac (t8_cmesh_t cm, t8_gloidx_t, const double *x, const size_t n, double *jac, const void *, const void *ud)
{
  const Ana *a = (const Ana *) ud;
  const int dim = t8_cmesh_get_dimension (cm);
  for (size_t i = 0; i < n; ++i)
    for (int d = 0; d < dim; ++d)
      for (int j = 0; j < 3; ++j)
        jac[(i * dim + d) * 3 + j] = a->A[j][d] + 2 * a->B[j][d] * x[i * dim + d];
}
struct CmeshG
{
  t8_cmesh_t c = nullptr;
  int dim;
  std::vector<TreeG> t;
  std::vector<int> local; /* global ids of the local trees */
  Ana ana[2];
  bool unique = false;
};
static void
cmeshg_make (CmeshG &M, Rng &r, bool derived)
{
  const int me = st ().rank, P = st ().size;
  M.dim = r.range (1, 3);
  const int n = r.range (1, 9);
  M.unique = r.chance (0.25);
  const int g1 = r.pick (std::vector<int> { G_LIN, G_LIN, G_BOX, G_LAG, G_ANA, G_ZERO });
  for (int k = 0; k < 2; ++k)
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        M.ana[k].A[i][j] = r.uniform (-2, 2), M.ana[k].B[i][j] = r.uniform (-1, 1);
  const bool neg = r.chance (0.3);
  for (int i = 0; i < n; ++i) {
    TreeG t;
    t.g = M.unique ? g1 : r.range (0, 5);
    std::vector<int> cl;
    for (int c = 1; c < 8; ++c)
      if (S_DIM[c] == M.dim && !(t.g == G_BOX && c != LINE && c != QUAD && c != HEX) && !(t.g == G_LAG && c != LINE && c != QUAD && c != HEX && c != TRI))
        cl.push_back (c);
    t.c = r.pick (cl);
    if (t.g == G_BOX) {
      t.v.resize (6);
      random_box (r, t.c, &t.v[0], t.axes);
      t.size = 30;
      t.has_neg = true;
    }
    else if (t.g == G_LAG) {
      t.deg = r.range (1, 2);
      double s;
      std::vector<double> corners = random_cell (r, t.c, false, s);
      for (auto &x : lagrange_nodes (t.c, t.deg)) {
        L3 p = linear_map (t.c, &corners[0], x.data ());
        for (int d = 0; d < 3; ++d)
          t.v.push_back ((double) p[d] + 0.02 * s * r.uniform (-1, 1));
      }
      t.size = 2 * s;
      for (int k = 0; k < S_NV[t.c]; ++k) /* keep the corners: the sign of the volume is known */
        for (int d = 0; d < 3; ++d)
          t.v[3 * k + d] = corners[3 * k + d];
      t.has_neg = true;
    }
    else if (t.g == G_LIN || t.g == G_ANA) {
      t.v = random_cell (r, t.c, r.chance (0.3), t.size);
      t.has_neg = t.g == G_LIN;
      if (t.g == G_LIN && neg && M.dim == 3 && r.chance (0.5)) { /* mirror it */
        L3 nrm { r.uniform (-1, 1), r.uniform (-1, 1), r.uniform (0.5, 1) };
        nrm = (1 / norml (nrm)) * nrm;
        for (int k = 0; k < S_NV[t.c]; ++k) {
          const L3 p = vtx (&t.v[0], k), q = p - (2 * dotl (p, nrm)) * nrm;
          for (int d = 0; d < 3; ++d)
            t.v[3 * k + d] = (double) q[d];
        }
        for (double x : t.v)
          t.size = std::max (t.size, std::fabs (x));
        t.neg = true;
      }
    }
    M.t.push_back (t);
  }
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  t8_cmesh_set_dimension (c, M.dim);
  if (neg)
    t8_cmesh_disable_negative_volume_check (c);
  t8_geometry *g[6] = { 0 };
  auto reg = [&] (int k) {
    switch (k) {
    case G_LIN:
      g[k] = t8_cmesh_register_geometry<t8_geometry_linear> (c);
      break;
    case G_BOX:
      g[k] = t8_cmesh_register_geometry<t8_geometry_linear_axis_aligned> (c);
      break;
    case G_LAG:
      g[k] = t8_cmesh_register_geometry<t8_geometry_lagrange> (c);
      break;
    case G_ANA:
      g[k] = t8_cmesh_register_geometry<t8_geometry_analytic> (c, "verif_analytic", ana_eval, ana_jac, t8_geom_load_tree_data_vertices, nullptr, nullptr,
                                                               (const void *) &M.ana[0]);
      break;
    case G_ANA2:
      g[k] = t8_cmesh_register_geometry<t8_geometry_analytic> (c, "verif_analytic_2", ana_eval, ana_jac, nullptr, nullptr, nullptr,
                                                               (const void *) &M.ana[1]);
      break;
    case G_ZERO:
      g[k] = t8_cmesh_register_geometry<t8_geometry_zero> (c);
      break;
    }
  };
  std::vector<int> ord { 0, 1, 2, 3, 4, 5 };
  for (int i = 6; i > 1; --i)
    std::swap (ord[i - 1], ord[r.below (i)]);
  if (M.unique)
    reg (g1);
  else
    for (int k : ord)
      reg (k);
  const Part p = part_random (r, n, P);
  const bool part = P > 1 && r.chance (0.6);
  if (part) {
    const int f = p.first[me], l = p.last[me];
    t8_cmesh_set_partition_range (c, 3, l < f ? f : (p.shared[me] ? -(t8_gloidx_t) f - 1 : f), l);
    for (int t = f; t <= l; ++t)
      M.local.push_back (t);
  }
  else
    for (int t = 0; t < n; ++t)
      M.local.push_back (t);
  for (int t : M.local) {
    const TreeG &T = M.t[t];
    t8_cmesh_set_tree_class (c, t, (t8_eclass_t) T.c);
    if (!M.unique)
      t8_cmesh_set_tree_geometry (c, t, g[T.g]);
    if (!T.v.empty ())
      t8_cmesh_set_tree_vertices (c, t, &T.v[0], (int) T.v.size () / 3);
    if (T.g == G_LAG)
      t8_cmesh_set_attribute (c, t, t8_get_package_id (), T8_CMESH_LAGRANGE_POLY_DEGREE_KEY, (void *) &T.deg, sizeof (int), 0);
  }
  t8_cmesh_commit (c, st ().comm);
  if (derived) {
    t8_cmesh_t q;
    t8_cmesh_init (&q);
    t8_cmesh_set_derive (q, c);
    if (neg)
      t8_cmesh_disable_negative_volume_check (q);
    t8_cmesh_commit (q, st ().comm);
    c = q;
  }
  M.c = c;
}
static L3
treeg_map (const CmeshG &M, int t, const double *x)
{
  const TreeG &T = M.t[t];
  switch (T.g) {
  case G_LIN:
    return linear_map (T.c, &T.v[0], x);
  case G_BOX:
    return box_map (T.c, &T.v[0], T.axes, x);
  case G_LAG:
    return lagrange_map (T.c, T.deg, &T.v[0], x);
  case G_ZERO:
    return { 0, 0, 0 };
  default: {
    const Ana &a = M.ana[T.g == G_ANA ? 0 : 1];
    L3 p = T.g == G_ANA ? vtx (&T.v[0], 0) : L3 { (ld) t, (ld) t, (ld) t };
    for (int j = 0; j < 3; ++j)
      for (int d = 0; d < M.dim; ++d)
        p[j] += (ld) a.A[j][d] * x[d] + (ld) a.B[j][d] * x[d] * x[d];
    return p;
  }
  }
}
static void
part_handler (Rng &r, i64 k)
{
  const int before = held_blocks ();
  const int nm = r.range (1, 3);
  std::vector<std::unique_ptr<CmeshG>> M;
  for (int i = 0; i < nm; ++i) {
    M.emplace_back (new CmeshG);
    ctx ("case %lld: committing a mesh with mixed geometries", (long long) k);
    cmeshg_make (*M.back (), r, r.chance (0.3));
  }
  Rng mine (comb (r.next (), st ().rank));
  int last_t = -1, last_m = -1;
  for (int op = 0; op < 60; ++op) {
    const int mi = (int) mine.below (nm);
    CmeshG &m = *M[mi];
    if (m.local.empty ())
      continue;
    const int t = mine.chance (0.2) && mi == last_m && last_t >= 0 ? last_t : mine.pick (m.local);
    if (last_m >= 0 && (mi != last_m || t != last_t))
      count ("tree_switches");
    last_t = t, last_m = mi;
    const TreeG &T = m.t[t];
    const double what = mine.unit ();
    ctx ("case %lld mesh %d (dim %d, %zu trees, unique %d) tree %d: %s %s deg %d size %g", (long long) k, mi, m.dim, m.t.size (), m.unique, t, G_NAME[T.g],
         S_NAME[T.c], T.deg, T.size);
    if (what < 0.6) {
      const size_t n = T.g == G_LAG ? 1 : mine.chance (0.3) ? 1 : mine.below (8);
      auto x = tight (n * m.dim), y = tight (3 * n);
      for (size_t i = 0; i < n; ++i)
        ref_point (mine, T.c, &x[i * m.dim]);
      for (size_t i = 0; i < 3 * n; ++i)
        y[i] = NAN;
      t8_geometry_evaluate (m.c, t, &x[0], n, &y[0]);
      for (size_t i = 0; i < n; ++i) {
        const L3 q = treeg_map (m, t, &x[i * m.dim]);
        if (!near3 (&y[3 * i], q, 1e-12 * (T.size + 20)))
          viol (fmt ("map-%s", G_NAME[T.g]).c_str (), "point %zu of %zu (%.17g ..) is %s instead of %s", i, n, x[i * m.dim], ps (&y[3 * i]).c_str (),
                pls (q).c_str ());
      }
      count ("map_points", n);
      count (fmt ("eval_%s", G_NAME[T.g]).c_str ());
    }
    else if (what < 0.7) {
      if (T.g != G_ANA && T.g != G_ZERO && T.g != G_ANA2)
        continue;
      const size_t n = mine.below (5);
      auto x = tight (n * m.dim), y = tight (3 * m.dim * n);
      for (size_t i = 0; i < n; ++i)
        ref_point (mine, T.c, &x[i * m.dim]);
      for (size_t i = 0; i < 3 * m.dim * n; ++i)
        y[i] = NAN;
      t8_geometry_jacobian (m.c, t, &x[0], n, &y[0]);
      /* central differences are exact for quadratic maps */
      for (size_t i = 0; i < n; ++i)
        for (int d = 0; d < m.dim; ++d) {
          double a[3] = { 0 }, b[3] = { 0 };
          for (int e = 0; e < m.dim; ++e)
            a[e] = b[e] = x[i * m.dim + e];
          a[d] += 0.25;
          b[d] -= 0.25;
          const L3 q = 2 * (treeg_map (m, t, a) - treeg_map (m, t, b));
          if (!near3 (&y[(i * m.dim + d) * 3], q, 1e-9 * (T.size + 20)))
            viol ("jacobian", "column %d at point %zu is %s instead of %s", d, i, ps (&y[(i * m.dim + d) * 3]).c_str (), pls (q).c_str ());
        }
      count ("jacobians", n);
    }
    else if (what < 0.8) {
      static const t8_geometry_type_t ty[]
        = { T8_GEOMETRY_TYPE_LINEAR, T8_GEOMETRY_TYPE_LINEAR_AXIS_ALIGNED, T8_GEOMETRY_TYPE_LAGRANGE, T8_GEOMETRY_TYPE_ANALYTIC, T8_GEOMETRY_TYPE_ZERO,
            T8_GEOMETRY_TYPE_ANALYTIC };
      VF_CHECK (t8_geometry_get_type (m.c, t) == ty[T.g], "geometry-type", "type %d", (int) t8_geometry_get_type (m.c, t));
      const t8_geometry_c *g = t8_cmesh_get_tree_geometry (m.c, t);
      VF_CHECK (g && g->t8_geom_get_type () == ty[T.g], "tree-geometry", "another geometry");
      count ("types");
    }
    else if (what < 0.9) {
      if (!T.has_neg)
        continue;
      const int a = t8_geometry_tree_negative_volume (m.c, t);
      VF_CHECK ((a != 0) == T.neg, "negative-volume", "answered %d for a %s", a, cell_str (T.c, T.v).c_str ());
      count (T.neg ? "negative_cells" : "positive_cells");
    }
    else {
      bool all = true;
      double lo[3] = { 1e300, 1e300, 1e300 }, hi[3] = { -1e300, -1e300, -1e300 };
      for (int t2 : m.local) {
        const TreeG &U = m.t[t2];
        all = all && (U.g == G_LIN || U.g == G_BOX);
        for (size_t i = 0; i < U.v.size (); ++i) {
          lo[i % 3] = std::min (lo[i % 3], U.v[i]);
          hi[i % 3] = std::max (hi[i % 3], U.v[i]);
        }
      }
      if (!all) {
        if (T.g != G_LIN && T.g != G_BOX)
          continue;
        double b[6];
        const bool ok = m.c->geometry_handler->get_tree_bounding_box (m.c, t, b);
        VF_CHECK (ok, "bounding-box", "no box of a tree");
        double l[3] = { 1e300, 1e300, 1e300 }, h[3] = { -1e300, -1e300, -1e300 };
        for (size_t i = 0; i < T.v.size (); ++i) {
          l[i % 3] = std::min (l[i % 3], T.v[i]);
          h[i % 3] = std::max (h[i % 3], T.v[i]);
        }
        for (int d = 0; d < 3; ++d)
          VF_CHECK (b[2 * d] == l[d] && b[2 * d + 1] == h[d], "bounding-box", "[%.17g %.17g] instead of [%.17g %.17g] in direction %d", b[2 * d], b[2 * d + 1],
                    l[d], h[d], d);
      }
      else {
        double b[6];
        const int ok = t8_cmesh_get_local_bounding_box (m.c, b);
        VF_CHECK (ok, "bounding-box", "no box of the mesh");
        for (int d = 0; d < 3; ++d)
          VF_CHECK (b[2 * d] == lo[d] && b[2 * d + 1] == hi[d], "bounding-box", "[%.17g %.17g] instead of [%.17g %.17g] in direction %d", b[2 * d],
                    b[2 * d + 1], lo[d], hi[d], d);
        count ("mesh_boxes");
      }
      count ("boxes_checked");
    }
  }
  /* a Lagrange cell and its faces describe the same surface */
  if (st ().size == 1 && r.chance (0.5)) {
    const int c = r.pick (std::vector<int> { TRI, QUAD, HEX }), deg = r.range (1, 2);
    double s;
    std::vector<double> corners = random_cell (r, c, false, s), nodes;
    for (auto &x : lagrange_nodes (c, deg)) {
      L3 p = linear_map (c, &corners[0], x.data ());
      for (int d = 0; d < 3; ++d)
        nodes.push_back ((double) p[d] + 0.02 * s * r.uniform (-1, 1));
    }
    for (int i = 0; i < S_NV[c] * 3; ++i)
      nodes[i] = corners[i];
    ctx ("case %lld: Lagrange %s of degree %d", (long long) k, S_NAME[c], deg);
    t8_lagrange_element el ((t8_eclass_t) c, deg, nodes);
    std::vector<t8_lagrange_element> faces = el.decompose ();
    VF_CHECK ((int) faces.size () == S_NF[c] && el.get_type () == (t8_eclass_t) c, "lagrange-faces", "%zu faces", faces.size ());
    for (int f = 0; f < (int) faces.size (); ++f)
      for (int j = 0; j < 3; ++j) {
        std::array<double, 3> x { 0, 0, 0 };
        const int fc = S_FSHAPE[c][f];
        ref_point (r, fc, x.data ());
        auto a = faces[f].evaluate (x);
        auto y = faces[f].map_on_face ((t8_eclass_t) c, f, x);
        auto b = el.evaluate (y);
        const L3 q = lagrange_map (c, deg, &nodes[0], y.data ());
        if (!near3 (b.data (), q, 1e-12 * s) || !near3 (a.data (), q, 1e-12 * s))
          viol ("lagrange-faces", "face %d: the face gives %s, the cell %s, expected %s", f, ps (a.data ()).c_str (), ps (b.data ()).c_str (),
                pls (q).c_str ());
        count ("lagrange_face_points");
      }
  }
  u64 h = nm;
  for (auto &m : M) {
    for (auto &t : m->t)
      h = comb (comb (h, t.g), t.c);
    t8_cmesh_destroy (&m->c);
  }
  seen ("meshes", h);
  count ("handler_cases");
  M.clear ();
  VF_CHECK (held_blocks () == before, "leak", "%d blocks held, %d before", held_blocks (), before);
}

/* ------------------------------------------------------------------ part curved */
static void
part_curved (Rng &r, i64 k)
{
  const double R = r.pick (std::vector<double> { 1, 1, 3.5, 0.02, 1000 }) * (r.chance (0.5) ? 1 : r.uniform (0.3, 1.7)), th = R * r.uniform (0.1, 2);
  const int lev = r.range (0, 1), lay = r.range (1, 3);
  const int which = r.range (0, 8);
  static const char *name[] = { "quadrangulated_disk", "surface_octahedron", "surface_icosahedron", "surface_cube",  "quadrangulated_surface",
                                "prismed_octahedron",  "prismed_icosahedron", "cubed_shell",        "cubed_sphere" };
  ctx ("case %lld: %s radius %.17g thickness %.17g levels %d layers %d", (long long) k, name[which], R, th, lev, lay);
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  const sc_MPI_Comm comm = st ().comm;
  double rmin = R, rmax = R;
  switch (which) {
  case 0:
    t8_cmesh_new_quadrangulated_disk (c, R, comm);
    rmin = 0;
    break;
  case 1:
    t8_cmesh_new_triangulated_spherical_surface_octahedron (c, R, comm);
    break;
  case 2:
    t8_cmesh_new_triangulated_spherical_surface_icosahedron (c, R, comm);
    break;
  case 3:
    t8_cmesh_new_triangulated_spherical_surface_cube (c, R, comm);
    break;
  case 4:
    t8_cmesh_new_quadrangulated_spherical_surface (c, R, comm);
    break;
  case 5:
    t8_cmesh_new_prismed_spherical_shell_octahedron (c, R, th, lev, lay, comm);
    rmax = R + th;
    break;
  case 6:
    t8_cmesh_new_prismed_spherical_shell_icosahedron (c, R, th, lev, lay, comm);
    rmax = R + th;
    break;
  case 7:
    t8_cmesh_new_cubed_spherical_shell (c, R, th, lev + 1, lay, comm);
    rmax = R + th;
    break;
  default:
    t8_cmesh_new_cubed_sphere (c, R, comm);
    rmin = 0;
  }
  const int nt = (int) t8_cmesh_get_num_local_trees (c), dim = t8_cmesh_get_dimension (c);
  const double tol = 1e-9 * (R + th);
  auto eval = [&] (int t, const double *x, double *y) { t8_geometry_evaluate (c, t, x, 1, y); };
  std::vector<int> trees;
  for (int i = 0; i < std::min (nt, 12); ++i)
    trees.push_back (nt <= 12 ? i : (int) r.below (nt));
  for (int t : trees) {
    const int cl = t8_cmesh_get_tree_class (c, t);
    /* batches and single points agree; the radius is in range */
    const size_t n = r.range (1, 6);
    auto x = tight (n * dim), y = tight (3 * n);
    for (size_t i = 0; i < n; ++i)
      ref_point (r, cl, &x[i * dim]);
    for (size_t i = 0; i < 3 * n; ++i)
      y[i] = NAN;
    t8_geometry_evaluate (c, t, &x[0], n, &y[0]);
    for (size_t i = 0; i < n; ++i) {
      double z[3] = { NAN, NAN, NAN };
      auto x1 = tight (dim);
      std::copy (&x[i * dim], &x[i * dim] + dim, &x1[0]);
      eval (t, &x1[0], z);
      if (!near3 (z, L3 { y[3 * i], y[3 * i + 1], y[3 * i + 2] }, 1e-12 * (R + th)))
        viol ("curved-batch", "tree %d: point %zu of %zu alone is %s, in the batch %s", t, i, n, ps (z).c_str (), ps (&y[3 * i]).c_str ());
      const double rad = std::sqrt (z[0] * z[0] + z[1] * z[1] + z[2] * z[2]);
      if (!(rad >= rmin - tol && rad <= rmax + tol) || (which == 0 && std::fabs (z[2]) > tol))
        viol ("curved-radius", "tree %d: a point at radius %.17g, expected [%.17g %.17g]", t, rad, rmin, rmax);
    }
    count ("map_points", 2 * n);
    for (int f = 0; f < S_NF[cl]; ++f) {
      int f2 = -1, orient = -1;
      const t8_locidx_t t2 = t8_cmesh_get_face_neighbor (c, t, f, &f2, &orient);
      const int nv = face_nv (cl, f);
      /* corners of the face in both trees */
      double a[4][3], b[4][3];
      for (int i = 0; i < nv; ++i) {
        double ref[3];
        for (int d = 0; d < 3; ++d)
          ref[d] = S_REF[cl][S_FV[cl][f][i]][d];
        eval (t, ref, a[i]);
      }
      auto weights = [&] (double *w) {
        if (nv == 4) {
          const double u = r.unit (), v = r.unit ();
          w[0] = (1 - u) * (1 - v), w[1] = u * (1 - v), w[2] = (1 - u) * v, w[3] = u * v;
        }
        else {
          double s = 0;
          for (int i = 0; i < nv; ++i)
            s += w[i] = r.unit ();
          for (int i = 0; i < nv; ++i)
            w[i] /= s;
        }
      };
      double w[4] = { 1, 0, 0, 0 }, p[3] = { 0, 0, 0 }, y1[3] = { NAN, NAN, NAN };
      if (nv > 1)
        weights (w);
      for (int i = 0; i < nv; ++i)
        for (int d = 0; d < 3; ++d)
          p[d] += w[i] * S_REF[cl][S_FV[cl][f][i]][d];
      eval (t, p, y1);
      if (t2 < 0) {
        /* the boundary is the sphere (circle) or one of the two spheres */
        const double rad = std::sqrt (y1[0] * y1[0] + y1[1] * y1[1] + y1[2] * y1[2]);
        VF_CHECK (std::fabs (rad - rmax) < tol || (rmin > 0 && std::fabs (rad - rmin) < tol), "curved-boundary",
                  "tree %d face %d: a boundary point at radius %.17g (radii %.17g %.17g)", t, f, rad, rmin, rmax);
        count ("boundary_points");
        continue;
      }
      const int c2 = t8_cmesh_get_tree_class (c, t2);
      int corr[4] = { -1, -1, -1, -1 };
      for (int i = 0; i < nv; ++i) {
        double ref[3];
        for (int d = 0; d < 3; ++d)
          ref[d] = S_REF[c2][S_FV[c2][f2][i]][d];
        eval (t2, ref, b[i]);
        for (int j = 0; j < nv; ++j)
          if (near3 (b[i], L3 { a[j][0], a[j][1], a[j][2] }, 1e-6 * (R + th)))
            corr[j] = i;
      }
      bool ok = true;
      for (int i = 0; i < nv; ++i)
        ok = ok && corr[i] >= 0;
      VF_CHECK (ok, "curved-corners", "tree %d face %d and tree %d face %d have different corners", t, f, t2, f2);
      if (!ok)
        continue;
      double q[3] = { 0, 0, 0 }, y2[3] = { NAN, NAN, NAN };
      for (int i = 0; i < nv; ++i)
        for (int d = 0; d < 3; ++d)
          q[d] += w[i] * S_REF[c2][S_FV[c2][f2][corr[i]]][d];
      eval (t2, q, y2);
      VF_CHECK (near3 (y2, L3 { y1[0], y1[1], y1[2] }, tol), "curved-match", "tree %d face %d gives %s, tree %d face %d gives %s", t, f, ps (y1).c_str (), t2,
                f2, ps (y2).c_str ());
      count ("matched_points");
    }
  }
  seen ("curved", comb (hash_str (name[which]), hash_bytes (&R, sizeof R)));
  count ("curved_cases");
  t8_cmesh_destroy (&c);
}

/* ------------------------------------------------------------------ part forest */
static void
check_leaf (World &w, const GWorld &G, i64 i, t8_locidx_t lt, const t8_element_t *e, const std::vector<double> &probe, ld &vol)
{
  const Leaf &x = w.S.g[i];
  const t8_eclass_t ec = w.S.ec (i);
  const int dim = S_DIM[ec];
  const Geo &g = w.S.geo[i];
  const int shape = w.s->element_get_shape (ec, e);
  const ld eps = 4e-15L * G.size + 1e-300L;
  const ld unit = ldexpl (1, -FK);
  /* corners by our own map */
  std::vector<L3> v;
  std::vector<double> vref;
  for (size_t k = 0; k < (size_t) S_NV[g.shape]; ++k) {
    double ref[3];
    for (int d = 0; d < 3; ++d)
      ref[d] = (double) (g.v[k][d] * unit);
    v.push_back (gw_map (G, w.m, x.t, ref));
    for (int d = 0; d < 3; ++d)
      vref.push_back (ref[d]);
    double p[3] = { NAN, NAN, NAN };
    t8_forest_element_coordinate (w.f, lt, e, (int) k, p);
    if (!near3 (p, v.back (), 10 * eps))
      VP ("C25", false, "element-corner", "corner %zu of %s is at %s instead of %s", k, leaf_str (x).c_str (), ps (p).c_str (), pls (v.back ()).c_str ());
  }
  if (run_too ("C25")) {
    count ("corners", (size_t) S_NV[g.shape]);
    /* points inside by reference coordinates of the element (three entries per point) */
    const size_t n = w.mine.range (1, 6);
    auto rp = tight (3 * n), out = tight (3 * n);
    for (size_t k = 0; k < n; ++k) {
      double y[3] = { 0, 0, 0 };
      ref_point (w.mine, shape, y);
      std::copy (y, y + 3, &rp[3 * k]);
    }
    for (size_t k = 0; k < 3 * n; ++k)
      out[k] = NAN;
    auto expect = [&] (const double *y) {
      /* affine in the reference space of the tree */
      ld wgt[8], z[3] = { y[0], y[1], y[2] };
      shape_weights (shape, z, wgt);
      double tr[3] = { 0, 0, 0 };
      ld acc[3] = { 0, 0, 0 };
      for (int c = 0; c < S_NV[shape]; ++c)
        for (int d = 0; d < 3; ++d)
          acc[d] += wgt[c] * vref[3 * c + d];
      for (int d = 0; d < 3; ++d)
        tr[d] = (double) acc[d];
      return gw_map (G, w.m, x.t, tr);
    };
    t8_forest_element_from_ref_coords (w.f, lt, e, &rp[0], n, &out[0]);
    for (size_t k = 0; k < n; ++k) {
      const L3 q = expect (&rp[3 * k]);
      VP ("C25", near3 (&out[3 * k], q, 100 * eps), "element-point", "point %zu of %zu %s of %s is at %s instead of %s", k, n, ps (&rp[3 * k]).c_str (),
          leaf_str (x).c_str (), ps (&out[3 * k]).c_str (), pls (q).c_str ());
    }
    count ("element_points", n);
    const double sf[3] = { w.mine.uniform (0.5, 1), w.mine.uniform (0.5, 1), w.mine.uniform (0.5, 1) };
    if (shape == LINE || shape == QUAD || shape == HEX) {
      t8_forest_element_from_ref_coords_ext (w.f, lt, e, &rp[0], n, &out[0], sf);
      for (size_t k = 0; k < n; ++k) {
        double y[3] = { 0, 0, 0 };
        for (int d = 0; d < dim; ++d)
          y[d] = 0.5 + (rp[3 * k + d] - 0.5) * sf[d];
        const L3 q = expect (y);
        VP ("C25", near3 (&out[3 * k], q, 100 * eps), "stretched-point", "stretched point %zu of %zu of %s is at %s instead of %s", k, n,
            leaf_str (x).c_str (), ps (&out[3 * k]).c_str (), pls (q).c_str ());
      }
    }
  }
  L3 mid { 0, 0, 0 };
  for (auto &p : v)
    mid = mid + (1.0L / v.size ()) * p;
  ld size = 0, mean = 0;
  for (auto &p : v) {
    size = std::max (size, norml (p - mid));
    mean += norml (p - mid) / v.size ();
  }
  /* the element itself may be affine inside a non-affine tree only if it is a simplex; be simple: by tree mesh */
  const bool simplex = shape == LINE || shape == TRI || shape == TET;
  const bool aff = G.affine || simplex;
  if (run_too ("C26")) {
    double p[3] = { NAN, NAN, NAN };
    t8_forest_element_linear_centroid (w.f, lt, e, p);
    VP ("C26", near3 (p, mid, 100 * eps), "linear-centroid", "%s: %s instead of %s", leaf_str (x).c_str (), ps (p).c_str (), pls (mid).c_str ());
    const bool pyr_tree = ec == T8_ECLASS_PYRAMID;
    if (G.affine || !pyr_tree) {
      double q[3] = { NAN, NAN, NAN };
      t8_forest_element_centroid (w.f, lt, e, q);
      VP ("C26", near3 (q, mid, 100 * eps), "centroid", "%s: %s instead of %s", leaf_str (x).c_str (), ps (q).c_str (), pls (mid).c_str ());
      const double dm = t8_forest_element_diam (w.f, lt, e);
      VP ("C26", fabsl (dm - 2 * mean) <= 100 * eps, "diameter", "%s: %.17g instead of %.17Lg", leaf_str (x).c_str (), dm, 2 * mean);
    }
    const double vv = t8_forest_element_volume (w.f, lt, e);
    /* exact volume of the affine cell */
    L3 e1 = v[S_AX[shape][0]] - v[0];
    ld exact;
    if (dim == 1)
      exact = norml (e1);
    else if (dim == 2)
      exact = norml (crossl (e1, v[S_AX[shape][1]] - v[0])) * S_VF[shape] / 6;
    else
      exact = fabsl (dotl (crossl (e1, v[S_AX[shape][1]] - v[0]), v[S_AX[shape][2]] - v[0])) * S_VF[shape] / 6;
    /* coordinates carry an absolute error eps, relative to the size of the element; areas by Gram determinants */
    const ld rel = 1e-11L + 200 * eps / size;
    if (aff && size > 1e5 * eps) {
      const ld vt = dim == 2 ? std::max (rel * size * size, sqrtl (1e-15L) * 1e-3L * size * size) : rel * powl (size, dim);
      VP ("C26", fabsl (vv - exact) <= vt, "volume", "%s: %.17g instead of %.17Lg", leaf_str (x).c_str (), vv, exact);
      vol += exact;
      count ("volumes");
    }
    /* faces */
    Planes P = planes_of (shape, v);
    L3 sum { 0, 0, 0 };
    ld asum = 0;
    bool all = true;
    for (int f = 0; f < S_NF[shape]; ++f) {
      const int nv = face_nv (shape, f), *fv = S_FV[shape][g.fmap[f]];
      L3 fm { 0, 0, 0 };
      for (int k = 0; k < nv; ++k)
        fm = fm + (1.0L / nv) * v[fv[k]];
      double q[3] = { NAN, NAN, NAN }, nn[3] = { NAN, NAN, NAN };
      t8_forest_element_face_centroid (w.f, lt, e, f, q);
      VP ("C26", near3 (q, fm, 100 * eps), "face-centroid", "%s face %d: %s instead of %s", leaf_str (x).c_str (), f, ps (q).c_str (), pls (fm).c_str ());
      const bool fflat = nv < 4 || G.affine;
      ld area = 0;
      if (nv == 2)
        area = norml (v[fv[1]] - v[fv[0]]);
      else if (nv == 3)
        area = 0.5L * norml (crossl (v[fv[1]] - v[fv[0]], v[fv[2]] - v[fv[0]]));
      else if (nv == 4)
        area = 0.5L * norml (crossl (v[fv[1]] - v[fv[0]], v[fv[2]] - v[fv[0]])) + 0.5L * norml (crossl (v[fv[1]] - v[fv[3]], v[fv[2]] - v[fv[3]]));
      const double fa = t8_forest_element_face_area (w.f, lt, e, f);
      const ld at = nv >= 3 ? std::max (rel * size * size, 3e-11L * size * size) : rel * size;
      if (size > 1e5 * eps)
        VP ("C26", fabsl (fa - area) <= at, "face-area", "%s face %d: %.17g instead of %.17Lg", leaf_str (x).c_str (), f, fa, area);
      count ("face_measures");
      if (!fflat || size < 1e5 * eps || (dim == 3 && area < 1e-12)) {
        all = false;
        continue;
      }
      t8_forest_element_face_normal (w.f, lt, e, f, nn);
      const ld nt = 1e-9L + 1e3L * eps / size;
      VP ("C26", near3 (nn, P.n[g.fmap[f]], nt), "face-normal", "%s (%s) face %d: %s instead of %s", leaf_str (x).c_str (), S_NAME[shape], f, ps (nn).c_str (),
          pls (P.n[g.fmap[f]]).c_str ());
      const ld a1 = dim == 1 ? 1 : fa;
      sum = sum + a1 * L3 { nn[0], nn[1], nn[2] };
      asum += a1;
      count ("normals");
    }
    if (all)
      VP ("C26", norml (sum) <= (1e-8L + 1e4L * eps / size) * asum, "closed-surface", "%s: area weighted normals sum to %s", leaf_str (x).c_str (),
          pls (sum).c_str ());
  }
  if (run_too ("C27") && (aff || (dim == 2 && shape == QUAD)) && size > 1e7 * eps) {
    /* points: the probes of this round and points made for this element */
    std::vector<double> pts;
    std::vector<int> made; /* 1: inside or on the boundary by construction, 0: decide by distance */
    const double tol = std::min (1e-4, std::pow (10., -w.mine.range (3, 11))) * (w.mine.chance (0.5) ? 1 : std::min (1., (double) size));
    const ld need = 60 * eps / std::min ((ld) 1, size); /* smallest tolerance that covers rounding */
    for (int k = 0; k < 6; ++k) {
      const int kind = w.mine.range (0, 4);
      L3 p { 0, 0, 0 };
      bool in = true;
      double wt[8], s = 0;
      for (int c = 0; c < S_NV[shape]; ++c)
        s += wt[c] = w.mine.unit ();
      if (kind == 1 && S_NF[shape]) {
        const int f = (int) w.mine.below (S_NF[shape]);
        for (int c = 0; c < S_NV[shape]; ++c)
          wt[c] = 0;
        s = 0;
        for (int c = 0; c < face_nv (shape, f); ++c)
          s += wt[S_FV[shape][f][c]] = w.mine.unit () + 1e-6;
      }
      else if (kind == 2) {
        for (int c = 0; c < S_NV[shape]; ++c)
          wt[c] = 0;
        s = wt[w.mine.below (S_NV[shape])] = 1;
      }
      for (int c = 0; c < S_NV[shape]; ++c)
        p = p + (ld) (wt[c] / s) * v[c];
      if (kind >= 3) { /* away from the element */
        const ld h = size * (kind == 3 ? w.mine.unit () : 3.0L);
        p = p + L3 { h * w.mine.uniform (-1, 1), h * w.mine.uniform (-1, 1), h * w.mine.uniform (-1, 1) };
        if (w.m.m.dim == 2 && w.mine.chance (0.7)) { /* in the plane of the element */
          const L3 nrm = planes_of (shape, v).nrm;
          p = p - dotl (p - v[0], nrm) * nrm;
        }
        in = false;
      }
      for (int d = 0; d < 3; ++d)
        pts.push_back ((double) p[d]);
      made.push_back (in);
    }
    for (size_t k = 0; k < probe.size (); ++k)
      pts.push_back (probe[k]);
    const size_t n = pts.size () / 3;
    std::unique_ptr<int[]> res (new int[n]);
    auto tp = tight (3 * n);
    std::copy (pts.begin (), pts.end (), &tp[0]);
    for (size_t k = 0; k < n; ++k)
      res[k] = 17;
    t8_forest_element_points_inside (w.f, lt, e, &tp[0], (int) n, &res[0], tol);
    Planes P = planes_of (shape, v);
    for (size_t k = 0; k < n; ++k) {
      const L3 p { pts[3 * k], pts[3 * k + 1], pts[3 * k + 2] };
      ld out = planes_dist (P, p), up = 0;
      if (dim == 2)
        up = fabsl (dotl (p - v[0], P.nrm));
      if (dim == 1) {
        const L3 dir = (1 / norml (v[1] - v[0])) * (v[1] - v[0]);
        up = norml (crossl (p - v[0], dir));
      }
      VP ("C27", res[k] == 0 || res[k] == 1, "points-answer", "answer %d for point %zu of %zu", res[k], k, n);
      const bool inside = (k < made.size () && made[k]) || (out < 0 && up <= eps);
      if (inside && tol > need) {
        VP ("C27", res[k] != 0, "point-missed", "%s (%s): point %zu of %zu %s, %.3Lg inside, is not found (tolerance %.3g)", leaf_str (x).c_str (),
            S_NAME[shape], k, n, ps (&pts[3 * k]).c_str (), -out, tol);
        count ("points_in");
      }
      else if (inside && out < -100 * eps && (dim == 3 || tol > 100 * eps)) {
        VP ("C27", res[k] != 0, "point-missed", "%s (%s): point %zu of %zu %s, %.3Lg inside, is not found (tolerance %.3g)", leaf_str (x).c_str (),
            S_NAME[shape], k, n, ps (&pts[3 * k]).c_str (), -out, tol);
        count ("points_in");
      }
      else if (out > 5 * tol * std::max ((ld) 1, size) + 200 * eps || up > 20 * tol * std::max ((ld) 1, size) + 200 * eps) {
        VP ("C27", res[k] == 0, "point-invented", "%s (%s): point %zu of %zu %s, %.3Lg outside (%.3Lg off the plane), is found (tolerance %.3g)",
            leaf_str (x).c_str (), S_NAME[shape], k, n, ps (&pts[3 * k]).c_str (), out, up, tol);
        count ("points_out");
      }
      else
        count ("points_undecided");
      /* alone as in the batch */
      if (w.mine.chance (0.2)) {
        int one = 17;
        auto t1 = tight (3);
        std::copy (&pts[3 * k], &pts[3 * k] + 3, &t1[0]);
        t8_forest_element_points_inside (w.f, lt, e, &t1[0], 1, &one, tol);
        VP ("C27", one == res[k], "point-batch", "%s: point %zu of %zu answered %d, alone %d", leaf_str (x).c_str (), k, n, res[k], one);
        count ("points_alone");
      }
    }
  }
}
static void
check_geometry (World &w, const GWorld &G)
{
  if (!snap_sane (w.S))
    return;
  snap_elements (w.S);
  const int dim = w.m.m.dim;
  /* probes: points of the domain, known to all */
  std::vector<double> probe;
  std::vector<int> ptree;
  const int np = 4;
  for (int k = 0; k < np; ++k) {
    const int t = (int) w.r.below (w.m.n ());
    double ref[3] = { 0, 0, 0 };
    ref_point (w.r, w.m.m.cls[t], ref);
    const L3 p = gw_map (G, w.m, t, ref);
    for (int d = 0; d < 3; ++d)
      probe.push_back ((double) p[d]);
    ptree.push_back (t);
  }
  ld vol = 0;
  i64 i = w.S.off[w.S.me];
  i64 done = 0;
  const i64 nl = w.S.nloc ();
  const double share = nl <= 80 ? 1 : 80.0 / nl;
  for (t8_locidx_t lt = 0; lt < t8_forest_get_num_local_trees (w.f); ++lt)
    for (t8_locidx_t k = 0; k < t8_forest_get_tree_num_leaf_elements (w.f, lt); ++k, ++i) {
      if (share < 1 && !w.mine.chance (share))
        continue;
      check_leaf (w, G, i, lt, t8_forest_get_leaf_element_in_tree (w.f, lt, k), probe, vol);
      ++done;
    }
  count ("leaves_checked", done);
  /* all leaves together */
  if (want ("C26") && !w.incomplete && G.affine) {
    double lv = 0;
    for (t8_locidx_t lt = 0; lt < t8_forest_get_num_local_trees (w.f); ++lt)
      for (t8_locidx_t k = 0; k < t8_forest_get_tree_num_leaf_elements (w.f, lt); ++k)
        lv += t8_forest_element_volume (w.f, lt, t8_forest_get_leaf_element_in_tree (w.f, lt, k));
    double gv = 0;
    PMPI_Allreduce (&lv, &gv, 1, MPI_DOUBLE, MPI_SUM, w.comm);
    VF_CHECK (fabsl (gv - G.volume) <= 1e-8L * G.volume + 1e-10L * G.size * powl (G.volume, (dim - 1.0L) / dim), "total-volume",
              "the leaves add up to %.17g, the domain has %.17Lg", gv, G.volume);
    count ("total_volumes");
  }
  /* every point of the domain is found, and far from faces only once */
  if (want ("C27") && !w.incomplete && G.affine) {
    std::vector<int> found (np, 0), gf (np, 0);
    const double tol = 1e-6 * std::min (1.0, G.size);
    std::vector<int> res (np);
    for (t8_locidx_t lt = 0; lt < t8_forest_get_num_local_trees (w.f); ++lt)
      for (t8_locidx_t k = 0; k < t8_forest_get_tree_num_leaf_elements (w.f, lt); ++k) {
        t8_forest_element_points_inside (w.f, lt, t8_forest_get_leaf_element_in_tree (w.f, lt, k), probe.data (), np, res.data (), tol);
        for (int q = 0; q < np; ++q)
          found[q] += res[q] != 0;
      }
    PMPI_Allreduce (found.data (), gf.data (), np, MPI_INT, MPI_SUM, w.comm);
    for (int q = 0; q < np; ++q) {
      VF_CHECK (gf[q] > 0, "point-lost", "the point %s of tree %d is found in no leaf", ps (&probe[3 * q]).c_str (), ptree[q]);
      count (gf[q] == 1 ? "located_once" : "located_many");
    }
  }
}
static void
part_forest (u64 seed, i64 k)
{
  const int before = held_blocks ();
  World w (seed, st ().comm);
  GWorld G;
  const int scheme = w.r.chance (0.7) ? 0 : 1;
  w.limit = 500;
  w.make_mesh = [&] (Rng &r) { return geo_mesh (r, scheme, G); };
  w_start (w, scheme, 4);
  w.hist = fmt ("case %lld seed %llu ", (long long) k, (unsigned long long) st ().seed) + w.hist;
  ctx ("%s", w.hist.c_str ());
  check_geometry (w, G);
  const int nops = w.r.range (1, 4);
  for (int i = 0; i < nops && !any_violation (); ++i) {
    OpSpec o = random_op (w);
    t8_forest_t old = do_op (w, o, false);
    if (old)
      t8_forest_unref (&old);
    if (any_violation ())
      return;
    check_geometry (w, G);
    seen ("states", w.S.hash (false));
    if (w.S.n () > 6 * w.limit)
      break;
  }
  if (any_violation ())
    return;
  if (k < 3)
    sample (w.hist.substr (0, 400));
  count ("forest_cases");
  count (G.geom ? "axis_aligned" : G.affine ? "affine_meshes" : "jittered_meshes");
  w_end (w);
  VF_CHECK (held_blocks () == before, "leak", "%d blocks held, %d before", held_blocks (), before);
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  const i64 n = (i64) (opt_int ("n", 40) * st ().scale);
  const std::string part = opt ("part", "all");
  Rng r (comb (st ().seed, 2525));
  for (i64 k = 0; k < n; ++k) {
    const u64 s = r.next ();
    if (st ().only_case >= 0 && st ().only_case != k)
      continue;
    Rng q (s);
    if (part == "maps" || part == "all") {
      Rng mine (comb (s, st ().rank));
      for (int i = 0; i < 10; ++i)
        part_maps (mine);
    }
    if (run_too ("C25")) {
      if (part == "handler" || part == "all")
        part_handler (q, k);
      if (part == "curved" || (part == "all" && k % 4 == 0))
        part_curved (q, k);
    }
    if (part == "forest" || part == "all")
      part_forest (comb (s, 5), k);
    if (any_violation ())
      break;
  }
  return finish ();
}
