/* Forest observation: meshes with exact corner correspondences across tree faces, gathered global leaf
 * lists ("snapshots"), and the face adjacency of all leaves computed from exact integer geometry only. */
#ifndef VERIF_FOREST_HXX
#define VERIF_FOREST_HXX
#include "gmesh.hxx"
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear_axis_aligned.hxx>
#include <t8_forest/t8_forest.h>
#include <t8_forest/t8_forest_general.h>
#include <t8_forest/t8_forest_partition.h>
#include <t8_forest/t8_forest_balance.h>
#include <t8_forest/t8_forest_ghost.h>
#include <t8_forest/t8_forest_private.h>
#include <t8_forest/t8_forest_types.h>

namespace vf
{
/* report only under the property this rule belongs to (or when run by hand) */
inline bool
want (const char *p)
{
  return st ().prop == "C00" || st ().prop == p;
}
/* run the operation, too, when only its communication is watched */
inline bool
run_too (const char *p)
{
  return want (p) || st ().prop == "C18" || st ().prop == "C17";
}
#define VP(pid, cond, key, ...) \
  do { \
    if (vf::want (pid) && !(cond)) \
      vf::viol (key, __VA_ARGS__); \
  } while (0)

enum { FK = 30 }; /* reference coordinates are scaled by 2^FK */

/* ------------------------------------------------------------------ meshes */
struct FJoin
{
  int t = -1, f = -1, orient = 0;
  int corr[4] = { -1, -1, -1, -1 }; /* corner i of my face is corner corr[i] of the other face */
};
struct FMesh
{
  CModel m; /* classes, joins, vertex attributes */
  std::vector<std::array<FJoin, 6>> join;
  std::string kind;
  int geom = 0; /* 0: linear geometry, 1: axis-aligned boxes */
  int
  n () const
  {
    return m.n ();
  }
};
inline P3
root_pt (int c, int v)
{
  return P3 { (i64) S_REF[c][v][0] << FK, (i64) S_REF[c][v][1] << FK, (i64) S_REF[c][v][2] << FK };
}
/* orientation of the frame (a,b,c) of corners of face f as seen from outside, in reference space */
inline int
frame_sign (int cls, int f, int a, int b, int c)
{
  const int *fv = S_FV[cls][f];
  P3 p[3] = { root_pt (cls, fv[a]), root_pt (cls, fv[b]), root_pt (cls, fv[c]) };
  N3 n = cross (sub (p[1], p[0]), sub (p[2], p[0]));
  for (int i = 0; i < S_NV[cls]; ++i) {
    i128 d = dot (n, sub (root_pt (cls, i), p[0]));
    if (d != 0)
      return d < 0 ? 1 : -1;
  }
  return 0;
}
inline void
fm_set_join (FMesh &w, int t1, int f1, int t2, int f2, const int *corr)
{
  FJoin a, b;
  a.t = t2, a.f = f2, b.t = t1, b.f = f1;
  const int nv = face_nv (w.m.cls[t1], f1);
  for (int i = 0; i < nv; ++i) {
    a.corr[i] = corr[i];
    b.corr[corr[i]] = i;
  }
  const int c1 = w.m.cls[t1], c2 = w.m.cls[t2];
  const bool main1 = c1 == c2 ? f1 <= f2 : gm_class_rank (c1) < gm_class_rank (c2);
  const int o = main1 ? corr[0] : b.corr[0];
  a.orient = b.orient = o;
  w.join[t1][f1] = a;
  w.join[t2][f2] = b;
  cm_join (w.m, t1, f1, t2, f2, o);
}
/* the mesh with these cells, optionally with opposite boundary faces joined by translation */
inline FMesh
fm_from_gmesh (Rng &r, const GMesh &g, bool periodic)
{
  FMesh w;
  w.kind = periodic ? "periodic" : "conforming";
  w.m = gm_model (g, true);
  CModel joins = w.m;
  w.join.resize (g.n ());
  auto corners = [&] (int t, int f) {
    std::vector<int> k;
    for (int i = 0; i < face_nv (g.cls[t], f); ++i)
      k.push_back (g.tv[t][S_FV[g.cls[t]][f][i]]);
    return k;
  };
  for (int t = 0; t < g.n (); ++t)
    for (int f = 0; f < S_NF[g.cls[t]]; ++f) {
      const int t2 = joins.conn[t][f].tree, f2 = joins.conn[t][f].face;
      if (t2 < 0 || w.join[t][f].t >= 0)
        continue;
      std::vector<int> a = corners (t, f), b = corners (t2, f2);
      int corr[4] = { 0, 0, 0, 0 };
      for (size_t i = 0; i < a.size (); ++i)
        corr[i] = (int) (std::find (b.begin (), b.end (), a[i]) - b.begin ());
      fm_set_join (w, t, f, t2, f2, corr);
    }
  if (periodic) {
    double lo[3] = { 1e30, 1e30, 1e30 }, hi[3] = { -1e30, -1e30, -1e30 };
    for (auto &p : g.pts)
      for (int d = 0; d < 3; ++d) {
        lo[d] = std::min (lo[d], p[d]);
        hi[d] = std::max (hi[d], p[d]);
      }
    const int mask = r.range (1, (1 << g.dim) - 1);
    for (int d = 0; d < g.dim; ++d) {
      if (!(mask >> d & 1))
        continue;
      std::map<std::vector<D3>, std::pair<int, int>> low;
      auto key = [&] (const std::vector<int> &v, double shift) {
        std::vector<D3> k;
        for (int x : v) {
          D3 p = g.pts[x];
          p[d] -= shift;
          k.push_back (p);
        }
        return k;
      };
      for (int pass = 0; pass < 2; ++pass)
        for (int t = 0; t < g.n (); ++t)
          for (int f = 0; f < S_NF[g.cls[t]]; ++f) {
            if (w.join[t][f].t >= 0)
              continue;
            std::vector<int> v = corners (t, f);
            bool on = true;
            for (int x : v)
              on = on && g.pts[x][d] == (pass ? hi[d] : lo[d]);
            if (!on)
              continue;
            std::vector<D3> k = key (v, pass ? hi[d] - lo[d] : 0), ks = k;
            std::sort (ks.begin (), ks.end ());
            if (pass == 0)
              low[ks] = { t, f };
            else if (low.count (ks)) {
              auto p = low[ks];
              std::vector<D3> b = key (corners (p.first, p.second), 0);
              int corr[4] = { 0, 0, 0, 0 };
              for (size_t i = 0; i < k.size (); ++i)
                corr[i] = (int) (std::find (b.begin (), b.end (), k[i]) - b.begin ());
              fm_set_join (w, t, f, p.first, p.second, corr);
            }
          }
    }
  }
  return w;
}
inline FMesh
fm_geometric (Rng &r, const GmOpt &o, bool periodic)
{
  GmOpt q = o;
  if (periodic) {
    q.unit = true;
    q.jitter = false;
  }
  GMesh g = gm_random (r, q);
  return fm_from_gmesh (r, g, periodic);
}
/* arbitrary right-handed gluing of faces of equal shape; no embedding in space is needed for topology */
inline FMesh
fm_abstract (Rng &r, int max_trees, const std::vector<int> &only)
{
  FMesh w;
  w.kind = "abstract";
  auto allowed = [&] (int c) { return only.empty () || std::find (only.begin (), only.end (), c) != only.end (); };
  int dim = r.chance (0.1) ? 1 : r.range (2, 3);
  if (std::none_of (only.begin (), only.end (), [&] (int c) { return S_DIM[c] == dim; }) && !only.empty ())
    dim = S_DIM[only[0]];
  std::vector<int> cand;
  for (int c = 1; c < 8; ++c)
    if (S_DIM[c] == dim && allowed (c))
      cand.push_back (c);
  const bool one = r.chance (0.4);
  const int c1 = r.pick (cand), n = r.chance (0.3) ? 1 : r.range (1, max_trees);
  w.m.dim = dim;
  for (int t = 0; t < n; ++t)
    w.m.cls.push_back (one ? c1 : r.pick (cand));
  w.m.conn.resize (n);
  w.m.attr.resize (n);
  w.join.resize (n);
  for (int t = 0; t < n; ++t) {
    std::vector<double> v;
    for (int i = 0; i < S_NV[w.m.cls[t]]; ++i)
      for (int d = 0; d < 3; ++d)
        v.push_back (S_REF[w.m.cls[t]][i][d] + (d == 0 ? 2.0 * t : 0));
    w.m.attr[t][AKey { t8_get_package_id (), T8_CMESH_VERTICES_ATTRIBUTE_KEY }] = std::string ((const char *) v.data (), v.size () * sizeof (double));
  }
  std::vector<std::pair<int, int>> open;
  for (int t = 0; t < n; ++t)
    for (int f = 0; f < S_NF[w.m.cls[t]]; ++f)
      open.push_back ({ t, f });
  const double pj = r.pick (std::vector<double> { 0.3, 0.7, 1 });
  for (size_t i = open.size (); i > 1; --i)
    std::swap (open[i - 1], open[r.below (i)]);
  while (open.size () > 1) {
    auto a = open.back ();
    open.pop_back ();
    if (!r.chance (pj))
      continue;
    for (size_t i = 0; i < open.size (); ++i) {
      auto b = open[i];
      const int ca = w.m.cls[a.first], cb = w.m.cls[b.first];
      if (S_FSHAPE[ca][a.second] != S_FSHAPE[cb][b.second])
        continue;
      const int nv = face_nv (ca, a.second), o = r.range (0, nv - 1);
      int corr[4];
      if (nv <= 2)
        for (int k = 0; k < nv; ++k)
          corr[k] = (k + o) % nv;
      else {
        static const int cyc4[4] = { 0, 1, 3, 2 }, inv4[4] = { 0, 1, 3, 2 };
        bool ok = false;
        for (int dir = -1; dir <= 1 && !ok; dir += 2) {
          for (int k = 0; k < nv; ++k)
            corr[k] = nv == 3 ? (o + dir * k + 3) % 3 : cyc4[((inv4[o] + dir * inv4[k]) % 4 + 4) % 4];
          ok = frame_sign (ca, a.second, 0, 1, 2) == -frame_sign (cb, b.second, corr[0], corr[1], corr[2]);
        }
      }
      fm_set_join (w, a.first, a.second, b.first, b.second, corr);
      open.erase (open.begin () + i);
      break;
    }
  }
  return w;
}
inline FMesh
fm_random (Rng &r, int scheme, int max_cells)
{
  std::vector<int> only;
  if (scheme == 1)
    only = { LINE, QUAD, HEX, TRI, TET };
  FMesh w;
  const double k = r.unit ();
  if (k < 0.2)
    w = fm_abstract (r, std::max (2, max_cells), only);
  else {
    GmOpt o;
    o.max_cells = max_cells;
    o.only = only;
    if (scheme == 1 && r.chance (0.6))
      o.only = r.pick (std::vector<std::vector<int>> { { QUAD, HEX }, { TRI, TET }, { QUAD, TRI, HEX }, { QUAD, TRI, TET } });
    else if (scheme == 1)
      o.only = r.chance (0.5) ? std::vector<int> { LINE, QUAD, TRI, HEX } : std::vector<int> { LINE, QUAD, TRI, TET };
    w = fm_geometric (r, o, k < 0.45);
  }
  return w;
}
/* commit the mesh, replicated or (part) distributed in a random way */
inline t8_cmesh_t
fm_commit (const FMesh &w, Rng &shared, Rng &mine, AttrKeep &keep, bool part, sc_MPI_Comm comm)
{
  int me, P;
  PMPI_Comm_rank (comm, &me);
  PMPI_Comm_size (comm, &P);
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  t8_cmesh_set_dimension (c, w.m.dim);
  if (w.geom == 1)
    t8_cmesh_register_geometry<t8_geometry_linear_axis_aligned> (c);
  else
    t8_cmesh_register_geometry<t8_geometry_linear> (c);
  Part p = part_random (shared, w.n (), P);
  if (part) {
    const int f = p.first[me], l = p.last[me];
    t8_cmesh_set_partition_range (c, 3, l < f ? f : (p.shared[me] ? -(t8_gloidx_t) f - 1 : f), l);
  }
  auto all = [] (int) { return true; };
  cm_specify (c, w.m, mine, keep, all, all, false);
  if (mix (w.m.topo_hash () + 5) % 8 == 0)
    t8_cmesh_set_profiling (c, 1);
  t8_cmesh_commit (c, comm);
  return c;
}

/* ------------------------------------------------------------------ snapshots */
struct Leaf
{
  int t = -1, l = 0;
  u64 id = 0, lo = 0, hi = 0;
  int owner = -1;
  bool
  same (const Leaf &o) const
  {
    return t == o.t && l == o.l && id == o.id;
  }
};
inline std::string
leaf_str (const Leaf &x)
{
  return fmt ("t%d l%d #%llu", x.t, x.l, (unsigned long long) x.id);
}
inline Leaf
leaf_of (const t8_scheme *s, t8_eclass_t ec, const t8_element_t *e, int t, int maxl)
{
  Leaf x;
  x.t = t;
  x.l = s->element_get_level (ec, e);
  x.id = s->element_get_linear_id (ec, e, x.l);
  El d (s, ec);
  s->element_get_first_descendant (ec, e, d, maxl);
  x.lo = s->element_get_linear_id (ec, d, maxl);
  s->element_get_last_descendant (ec, e, d, maxl);
  x.hi = s->element_get_linear_id (ec, d, maxl);
  return x;
}
struct Nb
{
  int leaf, face;
  bool
  operator== (const Nb &o) const
  {
    return leaf == o.leaf && face == o.face;
  }
  bool
  operator< (const Nb &o) const
  {
    return leaf != o.leaf ? leaf < o.leaf : face < o.face;
  }
};
/* what a face of an element of a tree lies on */
struct FacePos
{
  int treeface = -1; /* on this face of the tree, or inside (-1) */
};

struct Snap
{
  const t8_scheme *s = nullptr;
  const FMesh *m = nullptr;
  int maxl = 0, me = 0, P = 1;
  std::vector<Leaf> g;
  std::vector<i64> off;
  std::vector<El> el;
  std::vector<Geo> geo;
  std::vector<std::vector<std::vector<Nb>>> adj;
  std::vector<std::vector<int>> tf; /* tree face of every leaf face or -1 */
  i64
  n () const
  {
    return (i64) g.size ();
  }
  t8_eclass_t
  ec (int leaf) const
  {
    return (t8_eclass_t) m->m.cls[g[leaf].t];
  }
  i64
  nloc () const
  {
    return off[me + 1] - off[me];
  }
  u64
  hash (bool owners) const
  {
    u64 h = g.size ();
    for (const Leaf &x : g) {
      h = comb (comb (comb (h, x.t), x.l), x.id);
      if (owners)
        h = comb (h, x.owner);
    }
    return h;
  }
};
/* position of a leaf in the global list (exact), or -1 */
inline i64
snap_find (const Snap &s, const Leaf &x)
{
  i64 a = 0, b = s.n ();
  while (a < b) {
    i64 c = (a + b) / 2;
    if (s.g[c].t < x.t || (s.g[c].t == x.t && s.g[c].lo < x.lo))
      a = c + 1;
    else
      b = c;
  }
  return a < s.n () && s.g[a].same (x) ? a : -1;
}
/* index of the leaf that contains the descendant with this id at the maximum level, or -1 */
inline i64
snap_at (const Snap &s, int t, u64 id)
{
  i64 a = 0, b = s.n ();
  while (a < b) {
    i64 c = (a + b) / 2;
    if (s.g[c].t < t || (s.g[c].t == t && s.g[c].hi < id))
      a = c + 1;
    else
      b = c;
  }
  return a < s.n () && s.g[a].t == t && s.g[a].lo <= id ? a : -1;
}
inline void
gather_leaves (std::vector<Leaf> &mine, std::vector<Leaf> &all, std::vector<i64> &off, sc_MPI_Comm comm)
{
  int P;
  PMPI_Comm_size (comm, &P);
  int nb = (int) (mine.size () * sizeof (Leaf));
  std::vector<int> cnt (P), dsp (P);
  PMPI_Allgather (&nb, 1, MPI_INT, cnt.data (), 1, MPI_INT, comm);
  i64 tot = 0;
  off.assign (1, 0);
  for (int p = 0; p < P; ++p) {
    dsp[p] = (int) tot;
    tot += cnt[p];
    off.push_back (tot / (i64) sizeof (Leaf));
  }
  all.resize (tot / sizeof (Leaf));
  PMPI_Allgatherv (mine.data (), nb, MPI_BYTE, all.data (), cnt.data (), dsp.data (), MPI_BYTE, comm);
}
/* the leaves of this process, read tree by tree */
inline std::vector<Leaf>
local_leaves (t8_forest_t f, int maxl)
{
  std::vector<Leaf> v;
  const t8_scheme *s = t8_forest_get_scheme (f);
  int rank;
  PMPI_Comm_rank (t8_forest_get_mpicomm (f), &rank);
  const t8_locidx_t nt = t8_forest_get_num_local_trees (f);
  for (t8_locidx_t lt = 0; lt < nt; ++lt) {
    const int gt = (int) t8_forest_global_tree_id (f, lt);
    const t8_eclass_t ec = t8_forest_get_tree_class (f, lt);
    const t8_locidx_t ne = t8_forest_get_tree_num_leaf_elements (f, lt);
    for (t8_locidx_t i = 0; i < ne; ++i) {
      v.push_back (leaf_of (s, ec, t8_forest_get_leaf_element_in_tree (f, lt, i), gt, maxl));
      v.back ().owner = rank;
    }
  }
  return v;
}
inline Snap
snap_take (t8_forest_t f, const FMesh *m)
{
  Snap S;
  S.s = t8_forest_get_scheme (f);
  S.m = m;
  S.maxl = t8_forest_get_maxlevel (f);
  const sc_MPI_Comm comm = t8_forest_get_mpicomm (f);
  PMPI_Comm_rank (comm, &S.me);
  PMPI_Comm_size (comm, &S.P);
  std::vector<Leaf> mine = local_leaves (f, S.maxl);
  gather_leaves (mine, S.g, S.off, comm);
  return S;
}
/* is the gathered list in order with the elements of each tree disjoint?  (precondition of the oracles) */
inline bool
snap_sane (const Snap &s)
{
  for (i64 i = 0; i < s.n (); ++i) {
    if (s.g[i].t < 0 || s.g[i].t >= s.m->n () || s.g[i].lo > s.g[i].hi)
      return false;
    if (i && (s.g[i].t < s.g[i - 1].t || (s.g[i].t == s.g[i - 1].t && s.g[i].lo <= s.g[i - 1].hi)))
      return false;
  }
  return true;
}
inline void
snap_elements (Snap &S)
{
  if (!S.el.empty () || S.g.empty ())
    return;
  for (i64 i = 0; i < S.n (); ++i) {
    S.el.emplace_back (S.s, S.ec (i));
    S.s->element_set_linear_id (S.ec (i), S.el.back (), S.g[i].l, S.g[i].id);
    S.geo.push_back (geo_of (S.s, S.ec (i), S.el.back (), FK));
  }
}
/* the face of the root of class c that contains all corners of face f of this cell, or -1 */
inline int
root_face (int c, const Geo &g, int f)
{
  const std::vector<P3> p = face_pts (g, f);
  for (int k = 0; k < S_NF[c]; ++k) {
    const int *fv = S_FV[c][k];
    bool on = true;
    if (S_DIM[c] == 1)
      on = p[0][0] == root_pt (c, fv[0])[0];
    else if (S_DIM[c] == 2) {
      P3 a = root_pt (c, fv[0]), t = sub (root_pt (c, fv[1]), a);
      for (auto &q : p)
        on = on && (i128) t[0] * (q[1] - a[1]) - (i128) t[1] * (q[0] - a[0]) == 0;
    }
    else {
      P3 a = root_pt (c, fv[0]);
      N3 n = cross (sub (root_pt (c, fv[1]), a), sub (root_pt (c, fv[2]), a));
      for (auto &q : p)
        on = on && dot (n, sub (q, a)) == 0;
    }
    if (on)
      return k;
  }
  return -1;
}
/* map a point of face f of tree t to the coordinates of the joined tree */
inline P3
cross_face (const FMesh &m, int t, int f, const P3 &p)
{
  const FJoin &j = m.join[t][f];
  const int c = m.m.cls[t], c2 = m.m.cls[j.t], d = S_DIM[c];
  auto A = [&] (int i) { return root_pt (c, S_FV[c][f][i]); };
  auto B = [&] (int i) { return root_pt (c2, S_FV[c2][j.f][j.corr[i]]); };
  if (d == 1)
    return B (0);
  P3 e1 = sub (A (1), A (0)), q = sub (p, A (0)), b1 = sub (B (1), B (0)), r = B (0);
  if (d == 2) {
    i128 u = e1[0] ? (i128) q[0] * (e1[0] > 0 ? 1 : -1) : (i128) q[1] * (e1[1] > 0 ? 1 : -1); /* in units of 2^-FK */
    for (int k = 0; k < 3; ++k)
      r[k] += (i64) ((u * b1[k]) >> FK);
    return r;
  }
  P3 e2 = sub (A (2), A (0)), b2 = sub (B (2), B (0));
  for (int x = 0; x < 3; ++x)
    for (int y = x + 1; y < 3; ++y) {
      i128 D = (i128) e1[x] * e2[y] - (i128) e1[y] * e2[x];
      if (D == 0)
        continue;
      i128 U = (i128) q[x] * e2[y] - (i128) q[y] * e2[x], V = (i128) e1[x] * q[y] - (i128) e1[y] * q[x];
      /* D = +-2^(2 FK); u = U / D, v = V / D */
      if (D < 0) {
        U = -U;
        V = -V;
      }
      i128 u = U >> FK, v = V >> FK;
      for (int k = 0; k < 3; ++k)
        r[k] += (i64) ((u * b1[k] + v * b2[k]) >> FK);
      return r;
    }
  return r;
}
struct BBox
{
  P3 a, b;
};
inline BBox
bbox (const std::vector<P3> &p)
{
  BBox x { p[0], p[0] };
  for (auto &q : p)
    for (int d = 0; d < 3; ++d) {
      x.a[d] = std::min (x.a[d], q[d]);
      x.b[d] = std::max (x.b[d], q[d]);
    }
  return x;
}
inline bool
bbox_in (const BBox &x, const BBox &y)
{
  for (int d = 0; d < 3; ++d)
    if (x.a[d] < y.a[d] || x.b[d] > y.b[d])
      return false;
  return true;
}
/* fine face points inside the closed face f of cell g? */
inline bool
pts_in_face (const Geo &g, int f, const std::vector<P3> &p)
{
  for (auto &q : p)
    if (!face_contains (g.shape, g.v, g.fmap[f], q))
      return false;
  return true;
}
/* adjacency of all leaves across faces */
inline void
snap_adjacency (Snap &S)
{
  if (!S.adj.empty ())
    return;
  snap_elements (S);
  struct FR
  {
    int leaf, face, side;
    std::vector<P3> p;
    BBox b;
  };
  const int N = (int) S.n ();
  S.adj.resize (N);
  S.tf.resize (N);
  std::map<std::array<i64, 5>, std::vector<FR>> inner;
  std::map<std::pair<int, int>, std::vector<FR>> outer;
  for (int i = 0; i < N; ++i) {
    const Geo &g = S.geo[i];
    const int c = S.m->m.cls[S.g[i].t], d = S_DIM[c];
    S.adj[i].resize (S_NF[g.shape]);
    S.tf[i].assign (S_NF[g.shape], -1);
    for (int f = 0; f < S_NF[g.shape]; ++f) {
      FR x { i, f, 0, face_pts (g, f), {} };
      x.b = bbox (x.p);
      const int k = root_face (c, g, f);
      S.tf[i][f] = k;
      if (k >= 0) {
        outer[{ S.g[i].t, k }].push_back (x);
        continue;
      }
      i128 nx, ny, nz;
      if (d == 1)
        nx = 1, ny = nz = 0;
      else if (d == 2)
        nx = -(x.p[1][1] - x.p[0][1]), ny = x.p[1][0] - x.p[0][0], nz = 0;
      else {
        N3 n = cross (sub (x.p[1], x.p[0]), sub (x.p[2], x.p[0]));
        nx = n.x, ny = n.y, nz = n.z;
      }
      i128 q = iabs (nx), b = iabs (ny);
      while (b) {
        i128 t = q % b;
        q = b;
        b = t;
      }
      b = iabs (nz);
      while (b) {
        i128 t = q % b;
        q = b;
        b = t;
      }
      if (q == 0)
        continue;
      nx /= q, ny /= q, nz /= q;
      if (nx < 0 || (nx == 0 && (ny < 0 || (ny == 0 && nz < 0))))
        nx = -nx, ny = -ny, nz = -nz;
      N3 n { nx, ny, nz };
      i128 off = dot (n, x.p[0]);
      for (int v = 0; v < g.nv && x.side == 0; ++v)
        x.side = sgn (dot (n, g.v[v]) - off);
      inner[{ S.g[i].t, (i64) nx, (i64) ny, (i64) nz, (i64) off }].push_back (x);
    }
  }
  auto link = [&] (int a, int fa, int b, int fb) { S.adj[a][fa].push_back (Nb { b, fb }); };
  for (auto &kv : inner) {
    std::vector<FR *> up, dn;
    for (auto &x : kv.second)
      (x.side > 0 ? up : dn).push_back (&x);
    for (FR *x : up)
      for (FR *y : dn) {
        const int lx = S.g[x->leaf].l, ly = S.g[y->leaf].l;
        bool hit = false;
        if (lx >= ly)
          hit = bbox_in (x->b, y->b) && pts_in_face (S.geo[y->leaf], y->face, x->p);
        else
          hit = bbox_in (y->b, x->b) && pts_in_face (S.geo[x->leaf], x->face, y->p);
        if (hit) {
          link (x->leaf, x->face, y->leaf, y->face);
          link (y->leaf, y->face, x->leaf, x->face);
        }
      }
  }
  for (auto &kv : outer) {
    const FJoin &j = S.m->join[kv.first.first][kv.first.second];
    if (j.t < 0)
      continue;
    auto it = outer.find ({ j.t, j.f });
    if (it == outer.end ())
      continue;
    /* every joined pair of tree faces is handled from one side, finding both directions */
    if (std::make_pair (j.t, j.f) < kv.first)
      continue;
    for (auto &x : kv.second) {
      std::vector<P3> q;
      for (auto &p : x.p)
        q.push_back (cross_face (*S.m, kv.first.first, kv.first.second, p));
      BBox b = bbox (q);
      Geo mapped = S.geo[x.leaf];
      for (auto &y : it->second) {
        const int lx = S.g[x.leaf].l, ly = S.g[y.leaf].l;
        bool hit = false;
        if (lx >= ly)
          hit = bbox_in (b, y.b) && pts_in_face (S.geo[y.leaf], y.face, q);
        else if (bbox_in (y.b, b)) {
          /* bring the points of y to the side of x */
          std::vector<P3> z;
          for (auto &p : y.p)
            z.push_back (cross_face (*S.m, j.t, j.f, p));
          hit = pts_in_face (S.geo[x.leaf], x.face, z);
        }
        if (hit) {
          link (x.leaf, x.face, y.leaf, y.face);
          link (y.leaf, y.face, x.leaf, x.face);
        }
      }
    }
  }
  for (auto &a : S.adj)
    for (auto &v : a)
      std::sort (v.begin (), v.end ());
}
/* oracle self-check: on a complete forest every leaf face that is not on the boundary has neighbors, and
 * they cover it; true when the adjacency is plausible */
inline bool
snap_adjacency_ok (const Snap &S, std::string &why)
{
  for (i64 i = 0; i < S.n (); ++i)
    for (size_t f = 0; f < S.adj[i].size (); ++f) {
      const int k = S.tf[i][f];
      const bool bnd = k >= 0 && S.m->join[S.g[i].t][k].t < 0;
      if (bnd != S.adj[i][f].empty ()) {
        why = fmt ("leaf %lld %s face %zu treeface %d has %zu neighbors", (long long) i, leaf_str (S.g[i]).c_str (), f, k, S.adj[i][f].size ());
        return false;
      }
      int finer = 0, coarser = 0;
      for (auto &x : S.adj[i][f])
        (S.g[x.leaf].l > S.g[i].l ? finer : coarser)++;
      if (coarser && (coarser > 1 || finer)) {
        why = fmt ("leaf %lld %s face %zu: %d coarser and %d finer neighbors", (long long) i, leaf_str (S.g[i]).c_str (), f, coarser, finer);
        return false;
      }
    }
  return true;
}
}  // namespace vf
#endif
