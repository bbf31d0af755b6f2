/* random geometric meshes and the linear map in extended precision */
#ifndef VF_GEOW_HXX
#define VF_GEOW_HXX
#include "fcheck.hxx"
using namespace vf;
typedef long double ld;
typedef std::array<ld, 3> L3;

[[maybe_unused]] static L3
operator+ (const L3 &a, const L3 &b)
{
  return { a[0] + b[0], a[1] + b[1], a[2] + b[2] };
}
[[maybe_unused]] static L3
operator- (const L3 &a, const L3 &b)
{
  return { a[0] - b[0], a[1] - b[1], a[2] - b[2] };
}
[[maybe_unused]] static L3
operator* (ld s, const L3 &a)
{
  return { s * a[0], s * a[1], s * a[2] };
}
[[maybe_unused]] static ld
dotl (const L3 &a, const L3 &b)
{
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
[[maybe_unused]] static L3
crossl (const L3 &a, const L3 &b)
{
  return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
}
[[maybe_unused]] static ld
norml (const L3 &a)
{
  return sqrtl (dotl (a, a));
}
[[maybe_unused]] static L3
vtx (const double *v, int i)
{
  return { v[3 * i], v[3 * i + 1], v[3 * i + 2] };
}

/* ------------------------------------------------------------------ oracles */
/* weights of the corners at a point of the reference shape (definition of the linear geometry) */
[[maybe_unused]] static void
shape_weights (int c, const ld *x, ld *w)
{
  switch (c) {
  case VERTEX:
    w[0] = 1;
    break;
  case LINE:
    w[0] = 1 - x[0], w[1] = x[0];
    break;
  case QUAD:
    for (int i = 0; i < 4; ++i)
      w[i] = (i & 1 ? x[0] : 1 - x[0]) * (i & 2 ? x[1] : 1 - x[1]);
    break;
  case HEX:
    for (int i = 0; i < 8; ++i)
      w[i] = (i & 1 ? x[0] : 1 - x[0]) * (i & 2 ? x[1] : 1 - x[1]) * (i & 4 ? x[2] : 1 - x[2]);
    break;
  case TRI: /* (0,0) (1,0) (1,1) */
    w[0] = 1 - x[0], w[1] = x[0] - x[1], w[2] = x[1];
    break;
  case TET: /* (0,0,0) (1,0,0) (1,0,1) (1,1,1) */
    w[0] = 1 - x[0], w[1] = x[0] - x[2], w[2] = x[2] - x[1], w[3] = x[1];
    break;
  case PRISM:
    for (int i = 0; i < 6; ++i) {
      const ld t[3] = { 1 - x[0], x[0] - x[1], x[1] };
      w[i] = t[i % 3] * (i < 3 ? 1 - x[2] : x[2]);
    }
    break;
  case PYR: { /* project from the apex (1,1,1) to the base */
    const ld h = 1 - x[2];
    if (h == 0) {
      for (int i = 0; i < 4; ++i)
        w[i] = 0;
      w[4] = 1;
      break;
    }
    const ld b[2] = { 1 - (1 - x[0]) / h, 1 - (1 - x[1]) / h };
    for (int i = 0; i < 4; ++i)
      w[i] = (i & 1 ? b[0] : 1 - b[0]) * (i & 2 ? b[1] : 1 - b[1]) * h;
    w[4] = x[2];
    break;
  }
  }
}
[[maybe_unused]] static L3
linear_map (int c, const double *v, const double *x)
{
  ld w[8], y[3] = { 0, 0, 0 };
  for (int d = 0; d < S_DIM[c]; ++d)
    y[d] = x[d];
  shape_weights (c, y, w);
  L3 p { 0, 0, 0 };
  for (int i = 0; i < S_NV[c]; ++i)
    p = p + w[i] * vtx (v, i);
  return p;
}
struct GWorld
{
  bool affine = true;        /* all cells are affine images of the reference cells */
  bool flat = true;          /* all faces are flat */
  double size = 1;
  ld volume = 0;
  std::vector<std::vector<double>> v; /* corners of every tree */
  int geom = 0;
  std::vector<std::array<int, 3>> axes;
  std::vector<std::array<double, 6>> box;
};
[[maybe_unused]] static FMesh
geo_mesh (Rng &r, int scheme, GWorld &G)
{
  GmOpt o;
  o.max_cells = r.chance (0.3) ? 1 : r.range (1, 6);
  G.geom = r.chance (0.2);
  if (G.geom)
    o.only = { LINE, QUAD, HEX };
  else if (scheme == 1)
    o.only = r.pick (std::vector<std::vector<int>> { { LINE, QUAD, HEX }, { LINE, TRI, TET }, { LINE, QUAD, TRI, HEX }, { LINE, QUAD, TRI, TET } });
  o.jitter = !G.geom && r.chance (0.3);
  o.unit = r.chance (0.3);
  GMesh g = gm_random (r, o);
  /* is the grid a grid? */
  G.affine = true;
  /* a linear transformation */
  L3 a[3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
  if (!G.geom && r.chance (0.7))
    for (;;) {
      for (int d = 0; d < 3; ++d)
        for (int e = 0; e < 3; ++e)
          a[d][e] = r.uniform (-1, 1);
      if (r.chance (0.3)) /* into a coordinate plane */
        std::swap (a[2], a[r.range (0, 2)]);
      const ld n0 = norml (a[0]), n1 = norml (crossl (a[0], a[1])), n2 = dotl (crossl (a[0], a[1]), a[2]);
      if (n0 > 0.3 && n1 > 0.15 && n2 > 0.15)
        break;
    }
  else if (!G.geom && g.dim < 3 && r.chance (0.5)) {
    /* planes and lines along the axes */
    const int s = r.range (1, 2);
    L3 b[3] = { a[0], a[1], a[2] };
    for (int d = 0; d < 3; ++d)
      a[d] = b[(d + s) % 3];
  }
  for (auto &p : g.pts) {
    L3 q { 0, 0, 0 };
    for (int d = 0; d < 3; ++d)
      q = q + (ld) p[d] * a[d];
    p = { (double) q[0], (double) q[1], (double) q[2] };
  }
  if (G.geom) /* corners of boxes must be numbered along the axes */
    for (int t = 0; t < g.n (); ++t) {
      std::vector<int> v = g.tv[t];
      std::sort (v.begin (), v.end (), [&] (int x, int y) {
        const D3 &p = g.pts[x], &q = g.pts[y];
        return std::make_tuple (p[2], p[1], p[0]) < std::make_tuple (q[2], q[1], q[0]);
      });
      g.tv[t] = v;
    }
  FMesh w = fm_from_gmesh (r, g, false);
  w.geom = G.geom;
  G.v.clear ();
  G.volume = 0;
  G.size = 0;
  G.flat = true;
  G.box.assign (g.n (), {});
  G.axes.assign (g.n (), { 0, 1, 2 });
  for (auto &p : g.pts)
    for (int d = 0; d < 3; ++d)
      G.size = std::max (G.size, std::fabs (p[d]));
  for (int t = 0; t < g.n (); ++t) {
    G.v.push_back (g.coords (t));
    const int c = g.cls[t];
    const double *v = &G.v[t][0];
    /* affine if the edges from corner 0 predict all corners */
    L3 e[3] = { { 0, 0, 0 }, { 0, 0, 0 }, { 0, 0, 0 } };
    const L3 v0 = vtx (v, 0);
    if (c == QUAD || c == HEX || c == PYR)
      e[0] = vtx (v, 1) - v0, e[1] = vtx (v, 2) - v0;
    else if (c == LINE)
      e[0] = vtx (v, 1) - v0;
    else
      e[0] = vtx (v, 1) - v0, e[1] = vtx (v, 2) - vtx (v, 1);
    if (c == HEX)
      e[2] = vtx (v, 4) - v0;
    else if (c == PRISM)
      e[2] = vtx (v, 3) - v0;
    else if (c == PYR)
      e[2] = vtx (v, 4) - v0 - e[0] - e[1];
    else if (c == TET)
      e[1] = vtx (v, 3) - vtx (v, 2), e[2] = vtx (v, 2) - vtx (v, 1);
    for (int i = 0; i < S_NV[c]; ++i) {
      L3 p = v0;
      for (int d = 0; d < 3; ++d)
        p = p + (ld) S_REF[c][i][d] * e[d];
      if (norml (p - vtx (v, i)) > 1e-12 * G.size)
        G.affine = false;
    }
    G.volume += S_DIM[c] == 1 ? norml (e[0])
                : S_DIM[c] == 2 ? norml (crossl (e[0], e[1])) * S_VF[c] / 6
                                : fabsl (dotl (crossl (e[0], e[1]), e[2])) * S_VF[c] / 6;
    if (G.geom) {
      std::array<double, 6> b;
      int na = 0;
      for (int d = 0; d < 3; ++d) {
        b[d] = v[d];
        b[3 + d] = v[3 * (S_NV[c] - 1) + d];
        if (b[d] != b[3 + d])
          G.axes[t][na++] = d;
      }
      G.box[t] = b;
      w.m.attr[t][AKey { t8_get_package_id (), T8_CMESH_VERTICES_ATTRIBUTE_KEY }] = std::string ((const char *) b.data (), sizeof b);
    }
  }
  w.kind = fmt ("%s %s", G.geom ? "boxes" : "linear", G.affine ? "affine" : "jittered");
  return w;
}
[[maybe_unused]] static L3
gw_map (const GWorld &G, const FMesh &m, int t, const double *x)
{
  return linear_map (m.m.cls[t], &G.v[t][0], x);
}
#endif
