/* Random conforming hybrid meshes with coordinates: a grid of cells, each kept as line/quad/hex or cut
 * into triangles, prisms, pyramids, tetrahedra so that neighboring cells agree on their common face;
 * random orientation-preserving renumbering of the corners of every tree and random tree order. */
#ifndef VERIF_GMESH_HXX
#define VERIF_GMESH_HXX
#include "cmodel.hxx"
#include "shapes.hxx"
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_cmesh/t8_cmesh.hxx>

namespace vf
{
typedef std::array<double, 3> D3;
struct GMesh
{
  int dim = 2;
  std::vector<D3> pts;
  std::vector<int> cls;
  std::vector<std::vector<int>> tv;
  int
  n () const
  {
    return (int) cls.size ();
  }
  std::vector<double>
  coords (int t) const
  {
    std::vector<double> v;
    for (int x : tv[t])
      for (int d = 0; d < 3; ++d)
        v.push_back (pts[x][d]);
    return v;
  }
  std::string
  str () const
  {
    std::string s = fmt ("gmesh dim %d trees %d points %zu:", dim, n (), pts.size ());
    for (int t = 0; t < n () && t < 10; ++t) {
      s += fmt (" %s(", S_NAME[cls[t]]);
      for (size_t i = 0; i < tv[t].size (); ++i)
        s += fmt (i ? ",%d" : "%d", tv[t][i]);
      s += ")";
    }
    return s;
  }
  u64
  hash () const
  {
    u64 h = dim;
    for (int t = 0; t < n (); ++t) {
      h = comb (h, cls[t]);
      for (int x : tv[t])
        h = comb (h, x);
    }
    return h;
  }
};

/* all orientation preserving corner renumberings of a shape */
inline const std::vector<std::vector<int>> &
gm_rotations (int c)
{
  static std::vector<std::vector<int>> rot[8];
  if (!rot[c].empty ())
    return rot[c];
  std::vector<std::vector<int>> &R = rot[c];
  switch (c) {
  case TRI:
    R = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 } };
    break;
  case QUAD:
    R = { { 0, 1, 2, 3 }, { 1, 3, 0, 2 }, { 3, 2, 1, 0 }, { 2, 0, 3, 1 } };
    break;
  case PYR:
    R = { { 0, 1, 2, 3, 4 }, { 1, 3, 0, 2, 4 }, { 3, 2, 1, 0, 4 }, { 2, 0, 3, 1, 4 } };
    break;
  case PRISM:
    R = { { 0, 1, 2, 3, 4, 5 }, { 1, 2, 0, 4, 5, 3 }, { 2, 0, 1, 5, 3, 4 }, { 3, 5, 4, 0, 2, 1 }, { 4, 3, 5, 1, 0, 2 }, { 5, 4, 3, 2, 1, 0 } };
    break;
  case TET: {
    int p[4] = { 0, 1, 2, 3 };
    do {
      int inv = 0;
      for (int i = 0; i < 4; ++i)
        for (int j = i + 1; j < 4; ++j)
          inv += p[i] > p[j];
      if (inv % 2 == 0)
        R.push_back ({ p[0], p[1], p[2], p[3] });
    } while (std::next_permutation (p, p + 4));
    break;
  }
  case HEX: {
    int ax[3] = { 0, 1, 2 };
    do {
      int inv = (ax[0] > ax[1]) + (ax[0] > ax[2]) + (ax[1] > ax[2]);
      for (int fl = 0; fl < 8; ++fl) {
        if ((inv + (fl & 1) + ((fl >> 1) & 1) + ((fl >> 2) & 1)) % 2)
          continue;
        std::vector<int> q;
        for (int v = 0; v < 8; ++v) {
          int o = 0;
          for (int d = 0; d < 3; ++d)
            if (((v >> d) & 1) ^ ((fl >> d) & 1))
              o |= 1 << ax[d];
          q.push_back (o);
        }
        R.push_back (q);
      }
    } while (std::next_permutation (ax, ax + 3));
    break;
  }
  default:
    R.push_back ({});
    for (int i = 0; i < S_NV[c]; ++i)
      R[0].push_back (i);
    if (c == LINE)
      R.push_back ({ 1, 0 });
  }
  return R;
}

/* sign of the oriented volume of a simplex, in the convention of the reference shapes */
inline double
gm_det (const D3 &a, const D3 &b, const D3 &c, const D3 &d)
{
  double u[3], v[3], w[3];
  for (int i = 0; i < 3; ++i) {
    u[i] = b[i] - a[i];
    v[i] = c[i] - a[i];
    w[i] = d[i] - a[i];
  }
  return u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]);
}

struct GmOpt
{
  int max_cells = 12;
  int dim = 0;             /* 0: random */
  std::vector<int> only;   /* allowed classes (empty: all) */
  bool jitter = true;
  bool unit = false;       /* coordinates in small integers */
  bool planar = true;      /* 2D meshes in the plane z = 0 */
};
inline GMesh
gm_random (Rng &r, const GmOpt &o = GmOpt ())
{
  GMesh g;
  auto allowed = [&] (int c) { return o.only.empty () || std::find (o.only.begin (), o.only.end (), c) != o.only.end (); };
  g.dim = o.dim ? o.dim : (r.chance (0.1) ? 1 : r.range (2, 3));
  int n[3] = { 1, 1, 1 };
  int budget = r.chance (0.25) ? r.range (1, 2) : r.range (1, std::max (1, o.max_cells));
  for (int d = 0; d < g.dim; ++d) {
    n[d] = r.range (1, std::max (1, std::min (budget, g.dim == 1 ? budget : g.dim == 2 ? 5 : 3)));
    budget /= n[d];
  }
  const bool id_style = o.unit;
  const double off = id_style ? 0 : r.chance (0.3) ? r.uniform (-100, 100) : 0;
  const double jit = o.jitter && !id_style ? r.pick (std::vector<double> { 0, 0.05, 0.15 }) : 0;
  double sc[3];
  for (int d = 0; d < 3; ++d)
    sc[d] = id_style ? 1 : r.pick (std::vector<double> { 1, 1, 0.3, 7 });
  auto vid = [&] (int i, int j, int k) { return (k * (n[1] + 1) + j) * (n[0] + 1) + i; };
  const int K = g.dim == 3 ? n[2] : 0, J = g.dim >= 2 ? n[1] : 0;
  for (int k = 0; k <= K; ++k)
    for (int j = 0; j <= J; ++j)
      for (int i = 0; i <= n[0]; ++i) {
        D3 p { (double) i, (double) j, (double) k };
        for (int d = 0; d < 3; ++d) {
          if (d < g.dim)
            p[d] += r.uniform (-jit, jit);
          p[d] *= sc[d];
          if (d < g.dim)
            p[d] += off;
        }
        if (g.dim < 3)
          p[2] = o.planar ? 0 : off + jit;
        if (g.dim < 2)
          p[1] = 0;
        if (vid (i, j, k) != (int) g.pts.size ())
          g.pts.resize (vid (i, j, k));
        g.pts.push_back (p);
      }
  auto center = [&] (const std::vector<int> &v) {
    D3 p { 0, 0, 0 };
    for (int x : v)
      for (int d = 0; d < 3; ++d)
        p[d] += g.pts[x][d] / v.size ();
    g.pts.push_back (p);
    return (int) g.pts.size () - 1;
  };
  auto add = [&] (int c, std::vector<int> v) {
    if (c == TET && gm_det (g.pts[v[0]], g.pts[v[1]], g.pts[v[2]], g.pts[v[3]]) > 0)
      std::swap (v[2], v[3]);
    g.cls.push_back (c);
    g.tv.push_back (v);
  };
  if (g.dim == 1)
    for (int i = 0; i < n[0]; ++i)
      add (LINE, { vid (i, 0, 0), vid (i + 1, 0, 0) });
  else if (g.dim == 2) {
    const bool q = allowed (QUAD), t = allowed (TRI);
    const double pt = !q ? 1 : !t ? 0 : r.pick (std::vector<double> { 0, 0.5, 1 });
    for (int j = 0; j < n[1]; ++j)
      for (int i = 0; i < n[0]; ++i) {
        int v[4] = { vid (i, j, 0), vid (i + 1, j, 0), vid (i, j + 1, 0), vid (i + 1, j + 1, 0) };
        if (!r.chance (pt))
          add (QUAD, { v[0], v[1], v[2], v[3] });
        else if (r.chance (0.2)) {
          int c = center ({ v[0], v[1], v[2], v[3] });
          add (TRI, { v[0], v[1], c });
          add (TRI, { v[1], v[3], c });
          add (TRI, { v[3], v[2], c });
          add (TRI, { v[2], v[0], c });
        }
        else if (r.chance (0.5)) {
          add (TRI, { v[0], v[1], v[3] });
          add (TRI, { v[0], v[3], v[2] });
        }
        else {
          add (TRI, { v[0], v[1], v[2] });
          add (TRI, { v[1], v[3], v[2] });
        }
      }
  }
  else {
    const bool aH = allowed (HEX), aP = allowed (PRISM), aY = allowed (PYR), aT = allowed (TET);
    auto cid = [&] (int i, int j, int k) { return (k * n[1] + j) * n[0] + i; };
    std::vector<char> ty (n[0] * n[1] * n[2]), diag (n[0] * n[1]);
    std::vector<char> kinds;
    if (aH)
      kinds.push_back ('H');
    if (aP)
      kinds.push_back ('P');
    if (aT || aY)
      kinds.push_back ('M');
    const bool one = r.chance (0.3) || !(aT && aY && aP && aH);
    const char k1 = r.pick (kinds);
    for (auto &x : ty)
      x = one ? k1 : r.pick (kinds);
    for (auto &x : diag)
      x = (char) r.range (0, 1);
    for (int rep = 0; rep < n[2] + 1; ++rep)
      for (int k = 0; k < n[2]; ++k)
        for (int j = 0; j < n[1]; ++j)
          for (int i = 0; i < n[0]; ++i)
            if (ty[cid (i, j, k)] == 'H' && ((k > 0 && ty[cid (i, j, k - 1)] == 'P') || (k + 1 < n[2] && ty[cid (i, j, k + 1)] == 'P')))
              ty[cid (i, j, k)] = 'M';
    /* split state of the face of direction d at lower side of cell (i,j,k): -1 no, 0/1 diagonal */
    std::map<std::array<int, 4>, int> split;
    const u64 salt = r.next ();
    const double ps = !aY ? 1 : !aT ? 0 : r.pick (std::vector<double> { 0, 0.5, 1 });
    auto face = [&] (int d, int i, int j, int k) -> int {
      std::array<int, 4> key { d, i, j, k };
      auto it = split.find (key);
      if (it != split.end ())
        return it->second;
      int a[3] = { i, j, k }, b[3] = { i, j, k };
      --b[d];
      char ta = a[d] < n[d] ? ty[cid (a[0], a[1], a[2])] : 'x', tb = b[d] >= 0 ? ty[cid (b[0], b[1], b[2])] : 'x';
      Rng q (comb (salt, ((d * 64 + i) * 64 + j) * 64 + k));
      int res = -1;
      if (d == 2 && (ta == 'P' || tb == 'P'))
        res = diag[j * n[0] + i];
      else if (ta == 'H' || tb == 'H' || ta == 'P' || tb == 'P')
        res = -1;
      else if (q.chance (ps))
        res = q.range (0, 1);
      split[key] = res;
      return res;
    };
    for (int k = 0; k < n[2]; ++k)
      for (int j = 0; j < n[1]; ++j)
        for (int i = 0; i < n[0]; ++i) {
          int v[8];
          for (int c = 0; c < 8; ++c)
            v[c] = vid (i + (c & 1), j + ((c >> 1) & 1), k + (c >> 2));
          char t = ty[cid (i, j, k)];
          if (t == 'H')
            add (HEX, { v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7] });
          else if (t == 'P') {
            if (diag[j * n[0] + i] == 0) { /* diagonal 0-3 */
              add (PRISM, { v[0], v[1], v[3], v[4], v[5], v[7] });
              add (PRISM, { v[0], v[3], v[2], v[4], v[7], v[6] });
            }
            else { /* diagonal 1-2 */
              add (PRISM, { v[0], v[1], v[2], v[4], v[5], v[6] });
              add (PRISM, { v[1], v[3], v[2], v[5], v[7], v[6] });
            }
          }
          else {
            int c = center ({ v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7] });
            for (int d = 0; d < 3; ++d)
              for (int s = 0; s < 2; ++s) {
                int sp = face (d, i + (d == 0 && s), j + (d == 1 && s), k + (d == 2 && s));
                int q[4], m = 0;
                for (int x = 0; x < 8; ++x)
                  if (((x >> d) & 1) == s)
                    q[m++] = v[x];
                if (sp < 0) {
                  /* base as seen from inside: right handed with the apex */
                  std::vector<int> y { q[0], q[1], q[2], q[3], c };
                  if (gm_det (g.pts[y[0]], g.pts[y[1]], g.pts[y[2]], g.pts[c]) < 0)
                    y = { q[0], q[2], q[1], q[3], c };
                  add (PYR, y);
                }
                else if (sp == 0) {
                  add (TET, { q[0], q[1], q[3], c });
                  add (TET, { q[0], q[3], q[2], c });
                }
                else {
                  add (TET, { q[0], q[1], q[2], c });
                  add (TET, { q[1], q[3], q[2], c });
                }
              }
          }
        }
  }
  /* renumber corners and trees */
  const bool ren = r.chance (0.85), perm = r.chance (0.6);
  for (int t = 0; t < g.n (); ++t)
    if (ren) {
      const std::vector<int> &p = r.pick (gm_rotations (g.cls[t]));
      std::vector<int> v = g.tv[t];
      for (size_t i = 0; i < v.size (); ++i)
        g.tv[t][i] = v[p[i]];
    }
  if (perm)
    for (int t = g.n (); t > 1; --t) {
      int q = (int) r.below (t);
      std::swap (g.cls[t - 1], g.cls[q]);
      std::swap (g.tv[t - 1], g.tv[q]);
    }
  return g;
}

/* order of the classes that decides about the main face of a connection */
inline int
gm_class_rank (int c)
{
  static const int rk[8] = { 0, 0, 1, 0, 1, 0, 2, 3 };
  return rk[c];
}
/* brute force: the faces that have the same corner points; orientation as documented */
inline CModel
gm_model (const GMesh &g, bool with_vertices)
{
  CModel m;
  m.dim = g.dim;
  m.cls = g.cls;
  m.conn.resize (g.n ());
  m.attr.resize (g.n ());
  std::map<std::vector<int>, std::vector<std::pair<int, int>>> faces;
  for (int t = 0; t < g.n (); ++t) {
    for (int f = 0; f < S_NF[g.cls[t]]; ++f) {
      std::vector<int> k;
      for (int i = 0; i < face_nv (g.cls[t], f); ++i)
        k.push_back (g.tv[t][S_FV[g.cls[t]][f][i]]);
      std::sort (k.begin (), k.end ());
      faces[k].push_back ({ t, f });
    }
    if (with_vertices) {
      std::vector<double> v = g.coords (t);
      m.attr[t][AKey { t8_get_package_id (), T8_CMESH_VERTICES_ATTRIBUTE_KEY }] = std::string ((const char *) v.data (), v.size () * sizeof (double));
    }
  }
  for (auto &x : faces)
    if (x.second.size () == 2) {
      auto a = x.second[0], b = x.second[1];
      bool a_main = g.cls[a.first] == g.cls[b.first] ? a.second <= b.second : gm_class_rank (g.cls[a.first]) < gm_class_rank (g.cls[b.first]);
      auto mn = a_main ? a : b, ot = a_main ? b : a;
      int c0 = g.tv[mn.first][S_FV[g.cls[mn.first]][mn.second][0]], o = -1;
      for (int i = 0; i < face_nv (g.cls[ot.first], ot.second); ++i)
        if (g.tv[ot.first][S_FV[g.cls[ot.first]][ot.second][i]] == c0)
          o = i;
      cm_join (m, a.first, a.second, b.first, b.second, o);
    }
  return m;
}
}  // namespace vf
#endif
