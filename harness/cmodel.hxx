/* Model of a coarse mesh: what the user specified.  Everything the library reports after commit,
 * copy, broadcast or (re)partition is compared against it. */
#ifndef VERIF_CMODEL_HXX
#define VERIF_CMODEL_HXX
#include "common.hxx"
#include <t8_cmesh/t8_cmesh.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
#include <t8_geometry/t8_geometry_with_vertices.h>
#include <t8_data/t8_shmem.h>
#include <t8_eclass/t8_eclass.h>
#include <tuple>
#include <functional>

namespace vf
{
static const int CM_NF[8] = { 0, 2, 4, 3, 6, 4, 5, 5 };
static const int CM_DIM[8] = { 0, 1, 2, 2, 3, 3, 3, 3 };
static const int CM_NV[8] = { 1, 2, 4, 3, 8, 4, 6, 5 };
static const char *CM_NAME[8] = { "vertex", "line", "quad", "tri", "hex", "tet", "prism", "pyramid" };
/* number of corners of face f of class c */
inline int
cm_face_nv (int c, int f)
{
  if (CM_DIM[c] == 1)
    return 1;
  if (CM_DIM[c] == 2)
    return 2;
  if (c == 4)
    return 4;
  if (c == 5)
    return 3;
  if (c == 6)
    return f < 3 ? 4 : 3;
  return f < 4 ? 3 : 4;
}

struct Conn
{
  int tree = -1, face = -1, orient = 0;
  bool
  operator== (const Conn &o) const
  {
    return tree == o.tree && face == o.face && orient == o.orient;
  }
};
typedef std::tuple<int, int> AKey; /* package, key */
struct CModel
{
  int dim = 2;
  std::vector<int> cls;
  std::vector<std::array<Conn, 6>> conn;
  std::vector<std::map<AKey, std::string>> attr;
  int
  n () const
  {
    return (int) cls.size ();
  }
  u64
  topo_hash () const
  {
    u64 h = mix (dim);
    for (int t = 0; t < n (); ++t) {
      h = comb (h, cls[t]);
      for (int f = 0; f < CM_NF[cls[t]]; ++f)
        h = comb (comb (comb (h, conn[t][f].tree + 1), conn[t][f].face + 1), conn[t][f].orient);
      h = comb (h, attr[t].size ());
    }
    return h;
  }
  std::string
  str () const
  {
    std::string s = fmt ("dim %d:", dim);
    for (int t = 0; t < n () && t < 12; ++t) {
      s += fmt (" %d=%s[", t, CM_NAME[cls[t]]);
      for (int f = 0; f < CM_NF[cls[t]]; ++f)
        s += conn[t][f].tree < 0 ? std::string ("-,") : fmt ("%d.%d/%d,", conn[t][f].tree, conn[t][f].face, conn[t][f].orient);
      s += fmt ("]a%zu", attr[t].size ());
    }
    return s;
  }
};

inline void
cm_join (CModel &m, int t1, int f1, int t2, int f2, int o)
{
  m.conn[t1][f1].tree = t2;
  m.conn[t1][f1].face = f2;
  m.conn[t1][f1].orient = o;
  m.conn[t2][f2].tree = t1;
  m.conn[t2][f2].face = f1;
  m.conn[t2][f2].orient = o;
}

inline CModel
cm_random (Rng &r, int maxn, const std::vector<int> &pkgs)
{
  CModel m;
  m.dim = r.chance (0.12) ? 1 : r.range (2, 3);
  int n = r.chance (0.25) ? r.range (1, 2) : r.range (1, maxn);
  std::vector<int> cl;
  if (m.dim == 1)
    cl = { 1 };
  else if (m.dim == 2)
    cl = { 2, 3 };
  else
    cl = { 4, 5, 6, 7 };
  bool hybrid = r.chance (0.7);
  int one = r.pick (cl);
  for (int t = 0; t < n; ++t)
    m.cls.push_back (hybrid ? r.pick (cl) : one);
  m.conn.resize (n);
  m.attr.resize (n);
  /* faces by shape */
  std::vector<std::pair<int, int>> fs[5];
  for (int t = 0; t < n; ++t)
    for (int f = 0; f < CM_NF[m.cls[t]]; ++f)
      fs[cm_face_nv (m.cls[t], f)].push_back ({ t, f });
  double density = r.chance (0.2) ? 0.0 : r.uniform (0.1, 1.0);
  bool local = r.chance (0.5);
  for (int k = 1; k <= 4; ++k) {
    auto &v = fs[k];
    if (!local)
      for (size_t i = v.size (); i > 1; --i)
        std::swap (v[i - 1], v[r.below (i)]);
    else /* mostly connect trees with near ids */
      for (size_t i = 0; i + 1 < v.size (); ++i)
        std::swap (v[i], v[std::min (v.size () - 1, i + r.below (6))]);
    for (size_t i = 0; i + 1 < v.size (); i += 2)
      if (r.chance (density))
        cm_join (m, v[i].first, v[i].second, v[i + 1].first, v[i + 1].second, k < 2 ? 0 : r.range (0, k - 1));
  }
  /* attributes */
  int style = r.range (0, 4); /* 0: none, 1: all trees alike, 2..: irregular */
  for (int t = 0; t < n; ++t) {
    int na = style == 0 ? 0 : style == 1 ? 2 : (r.chance (0.3) ? 0 : r.range (1, 6));
    for (int i = 0; i < na; ++i) {
      AKey k { r.pick (pkgs), style == 1 ? i * 17 - 5 : (r.chance (0.5) ? r.range (-4, 12) : (int) (r.next () & 0x7fffffff) - 0x3fffffff) };
      size_t sz = style == 1 ? 8 : (r.chance (0.1) ? r.below (3000) + 1 : r.below (60) + 1);
      std::string d (sz, 0);
      for (auto &c : d)
        c = (char) r.next ();
      m.attr[t][k] = d;
    }
    if (style >= 2 ? r.chance (0.6) : style == 1) { /* a tree with vertices */
      std::vector<double> v (3 * CM_NV[m.cls[t]]);
      for (auto &x : v)
        x = r.uniform (-5, 5);
      m.attr[t][AKey { t8_get_package_id (), T8_CMESH_VERTICES_ATTRIBUTE_KEY }]
        = std::string ((const char *) v.data (), v.size () * sizeof (double));
    }
  }
  return m;
}

/* The persistent-attribute storage has to outlive commit */
struct AttrKeep
{
  std::vector<std::unique_ptr<std::string>> keep;
};

/* set calls for the trees for which want(t) holds and all joins touching them, in random order */
typedef std::function<bool (int)> WantF;
inline void
cm_specify (t8_cmesh_t c, const CModel &m, Rng &r, AttrKeep &keep, const WantF &want, const WantF &want_join_of, bool overwrite)
{
  struct Call
  {
    int kind, t, f;
    AKey k;
  };
  std::vector<Call> calls;
  for (int t = 0; t < m.n (); ++t) {
    if (want (t)) {
      calls.push_back ({ 0, t, 0, {} });
      for (auto &a : m.attr[t])
        calls.push_back ({ 1, t, 0, a.first });
    }
    for (int f = 0; f < CM_NF[m.cls[t]]; ++f) {
      const Conn &q = m.conn[t][f];
      if (q.tree < 0 || std::make_pair (q.tree, q.face) < std::make_pair (t, f))
        continue;
      if (want_join_of (t) || want_join_of (q.tree))
        calls.push_back ({ 2, t, f, {} });
    }
  }
  for (size_t i = calls.size (); i > 1; --i)
    std::swap (calls[i - 1], calls[r.below (i)]);
  for (const Call &x : calls) {
    if (x.kind == 0)
      t8_cmesh_set_tree_class (c, x.t, (t8_eclass_t) m.cls[x.t]);
    else if (x.kind == 2) {
      const Conn &q = m.conn[x.t][x.f];
      if (r.chance (0.5))
        t8_cmesh_set_join (c, x.t, q.tree, x.f, q.face, q.orient);
      else
        t8_cmesh_set_join (c, q.tree, x.t, q.face, x.f, q.orient);
    }
    else {
      const std::string &d = m.attr[x.t].at (x.k);
      int pkg = std::get<0> (x.k), key = std::get<1> (x.k);
      if (overwrite && r.chance (0.3)) {
        std::string old (d.size (), 0);
        for (auto &ch : old)
          ch = (char) r.next ();
        t8_cmesh_set_attribute (c, x.t, pkg, key, &old[0], old.size (), 0);
      }
      int how = r.range (0, 3);
      if (how == 0) {
        keep.keep.emplace_back (new std::string (d));
        t8_cmesh_set_attribute (c, x.t, pkg, key, &(*keep.keep.back ())[0], d.size (), 1);
      }
      else if (how == 1 && d.size () % 8 == 0) {
        std::vector<t8_gloidx_t> v (d.size () / 8);
        memcpy (v.data (), d.data (), d.size ());
        t8_cmesh_set_attribute_gloidx_array (c, x.t, pkg, key, v.data (), v.size (), 0);
      }
      else if (how == 2 && pkg == t8_get_package_id () && key == T8_CMESH_VERTICES_ATTRIBUTE_KEY && d.size () % 24 == 0) {
        std::vector<double> v (d.size () / 8);
        memcpy (v.data (), d.data (), d.size ());
        t8_cmesh_set_tree_vertices (c, x.t, v.data (), (int) v.size () / 3);
      }
      else {
        std::string tmp (d);
        t8_cmesh_set_attribute (c, x.t, pkg, key, &tmp[0], tmp.size (), 0);
        std::fill (tmp.begin (), tmp.end (), (char) 0x5a); /* the library must have its own copy */
      }
    }
  }
}

/* local trees first..last (last < first: none) of this rank */
inline void
cm_check (t8_cmesh_t c, const CModel &m, bool partitioned, int first, int last, const char *key, bool ghost_attrs)
{
  const int nl = last < first ? 0 : last - first + 1;
  auto K = [&] (const char *s) { return std::string (key) + "-" + s; };
#define CMV(cond, sub, ...) VF_CHECK (cond, K (sub).c_str (), __VA_ARGS__)
  CMV (t8_cmesh_is_committed (c), "committed", "cmesh is not committed");
  CMV (t8_cmesh_get_num_trees (c) == m.n (), "num-trees", "%lld trees instead of %d", (long long) t8_cmesh_get_num_trees (c), m.n ());
  CMV (t8_cmesh_get_dimension (c) == m.dim, "dim", "dimension %d instead of %d", t8_cmesh_get_dimension (c), m.dim);
  CMV (!!t8_cmesh_is_partitioned (c) == partitioned, "partitioned", "is_partitioned %d", t8_cmesh_is_partitioned (c));
  CMV (t8_cmesh_get_num_local_trees (c) == nl, "num-local", "%d local trees instead of %d", t8_cmesh_get_num_local_trees (c), nl);
  CMV (!!t8_cmesh_is_empty (c) == (m.n () == 0), "empty", "is_empty");
  if (nl > 0)
    CMV (t8_cmesh_get_first_treeid (c) == first, "first-tree", "first tree %lld instead of %d", (long long) t8_cmesh_get_first_treeid (c), first);
  if (t8_cmesh_get_num_local_trees (c) != nl || (nl > 0 && t8_cmesh_get_first_treeid (c) != first))
    return;
  std::set<int> ghosts;
  for (int t = first; t <= last; ++t)
    for (int f = 0; f < CM_NF[m.cls[t]]; ++f) {
      int q = m.conn[t][f].tree;
      if (q >= 0 && (q < first || q > last))
        ghosts.insert (q);
    }
  const int ng = t8_cmesh_get_num_ghosts (c);
  CMV (ng == (int) ghosts.size (), "num-ghosts", "%d ghosts instead of %zu", ng, ghosts.size ());
  std::map<int, int> lid; /* global -> local */
  for (int t = first; t <= last; ++t)
    lid[t] = t - first;
  std::set<int> got;
  for (int g = 0; g < ng; ++g) {
    i64 gid = t8_cmesh_get_global_id (c, nl + g);
    CMV (ghosts.count ((int) gid), "ghost-id", "ghost %d is tree %lld, which is not a remote face neighbor", g, (long long) gid);
    CMV (got.insert ((int) gid).second, "ghost-dup", "tree %lld is a ghost twice", (long long) gid);
    lid[(int) gid] = nl + g;
    CMV (t8_cmesh_treeid_is_ghost (c, nl + g) && !t8_cmesh_treeid_is_local_tree (c, nl + g), "is-ghost", "treeid_is_ghost(%d)", nl + g);
    CMV (t8_cmesh_ltreeid_to_ghostid (c, nl + g) == g, "ghostid", "ltreeid_to_ghostid(%d)", nl + g);
  }
  if (st ().nviol)
    return;
  CMV (!t8_cmesh_treeid_is_local_tree (c, -1) && !t8_cmesh_treeid_is_ghost (c, nl + ng) && !t8_cmesh_treeid_is_local_tree (c, nl),
       "range", "local/ghost tests outside their range");
  if (partitioned)
    for (int t = 0; t < m.n (); ++t) {
      int l = t8_cmesh_get_local_id (c, t);
      auto it = lid.find (t);
      CMV (it == lid.end () ? l < 0 : l == it->second, "local-id", "local id of tree %d is %d instead of %d", t, l,
           it == lid.end () ? -1 : it->second);
    }
  for (auto &x : lid) {
    const int t = x.first, l = x.second;
    const bool gh = l >= nl;
    CMV (t8_cmesh_get_global_id (c, l) == t, "global-id", "global id of %d", l);
    const int ec = gh ? t8_cmesh_get_ghost_class (c, l - nl) : t8_cmesh_get_tree_class (c, l);
    CMV (ec == m.cls[t], "class", "tree %d%s has class %d instead of %d", t, gh ? " (ghost)" : "", ec, m.cls[t]);
    if (ec != m.cls[t])
      return;
    count (gh ? "ghost_trees_checked" : "local_trees_checked");
    for (int f = 0; f < CM_NF[ec]; ++f) {
      const Conn &q = m.conn[t][f];
      int df = -77, o = -77;
      int nb = t8_cmesh_get_face_neighbor (c, l, f, &df, &o);
      int bd = t8_cmesh_tree_face_is_boundary (c, l, f);
      count (gh ? "ghost_faces" : "tree_faces");
      CMV (!!bd == (q.tree < 0), "boundary", "tree %d%s face %d: is_boundary %d, specified neighbor %d", t, gh ? " (ghost)" : "", f, bd, q.tree);
      auto it = q.tree < 0 ? lid.end () : lid.find (q.tree);
      if (it == lid.end ()) {
        CMV (nb < 0, "neighbor", "tree %d%s face %d: neighbor %d where none is specified or known", t, gh ? " (ghost)" : "", f, nb);
        CMV (t8_cmesh_get_tree_face_neighbor_eclass (c, l, f) == T8_ECLASS_INVALID, "neighbor-class", "class of a missing neighbor");
      }
      else {
        CMV (nb == it->second, "neighbor", "tree %d%s face %d: neighbor %d instead of %d (tree %d)", t, gh ? " (ghost)" : "", f, nb, it->second, q.tree);
        CMV (df == q.face, "dual-face", "tree %d%s face %d: dual face %d instead of %d", t, gh ? " (ghost)" : "", f, df, q.face);
        CMV (o == q.orient, "orientation", "tree %d%s face %d: orientation %d instead of %d", t, gh ? " (ghost)" : "", f, o, q.orient);
        CMV (t8_cmesh_get_tree_face_neighbor_eclass (c, l, f) == m.cls[q.tree], "neighbor-class", "tree %d face %d: wrong neighbor class", t, f);
      }
    }
    if (!gh || ghost_attrs) {
      for (auto &a : m.attr[t]) {
        const void *p = t8_cmesh_get_attribute (c, std::get<0> (a.first), std::get<1> (a.first), l);
        count (gh ? "ghost_attributes" : "tree_attributes");
        CMV (p != NULL, gh ? "ghost-attr-missing" : "attr-missing", "tree %d%s: attribute (%d,%d) of %zu bytes is missing", t, gh ? " (ghost)" : "",
             std::get<0> (a.first), std::get<1> (a.first), a.second.size ());
        if (p) {
          int same = !memcmp (p, a.second.data (), a.second.size ());
          CMV (same, gh ? "ghost-attr" : "attr", "tree %d%s: attribute (%d,%d) of %zu bytes differs from what was set", t, gh ? " (ghost)" : "",
               std::get<0> (a.first), std::get<1> (a.first), a.second.size ());
        }
      }
      /* nothing is found under a key that was not set */
      AKey none { t8_get_package_id () + 1, 424242 };
      CMV (t8_cmesh_get_attribute (c, std::get<0> (none), std::get<1> (none), l) == NULL, "attr-phantom", "tree %d: attribute never set", t);
      auto vk = m.attr[t].find (AKey { t8_get_package_id (), T8_CMESH_VERTICES_ATTRIBUTE_KEY });
      CMV ((t8_cmesh_get_tree_vertices (c, l) != NULL) == (vk != m.attr[t].end ()), "vertices", "tree %d%s: vertices", t, gh ? " (ghost)" : "");
    }
    if (st ().nviol > 3)
      return;
  }
  /* iteration over the local trees */
  int it = 0;
  for (t8_ctree_t tr = t8_cmesh_get_first_tree (c); tr != NULL; tr = t8_cmesh_get_next_tree (c, tr), ++it)
    ;
  CMV (it == nl, "iterate", "%d local trees found by iteration instead of %d", it, nl);
#undef CMV
}

/* A random partition: tree ranges per rank and the encoded offsets */
struct Part
{
  std::vector<int> first, last; /* per rank; last < first: empty */
  std::vector<int> shared;
  std::vector<i64> off;
};
inline Part
part_from_cuts (const std::vector<i64> &cut, const std::vector<i64> &tree_off, int P)
{
  Part p;
  const int n = (int) tree_off.size () - 1;
  auto tree_of = [&] (i64 e) { return (int) (std::upper_bound (tree_off.begin (), tree_off.end (), e) - tree_off.begin ()) - 1; };
  p.first.assign (P, 0);
  p.last.assign (P, -1);
  p.shared.assign (P, 0);
  p.off.assign (P + 1, n);
  for (int i = P - 1; i >= 0; --i) {
    if (cut[i] < cut[i + 1]) {
      p.first[i] = tree_of (cut[i]);
      p.last[i] = tree_of (cut[i + 1] - 1);
      p.shared[i] = cut[i] > tree_off[p.first[i]];
      p.off[i] = p.shared[i] ? -(i64) p.first[i] - 1 : p.first[i];
    }
    else {
      i64 o = p.off[i + 1];
      p.off[i] = o < 0 ? -o : o;
      p.first[i] = (int) p.off[i];
      p.last[i] = p.first[i] - 1;
    }
  }
  return p;
}
inline Part
part_random (Rng &r, int n, int P)
{
  const int K = r.chance (0.5) ? 1 : 4;
  std::vector<i64> to;
  for (int i = 0; i <= n; ++i)
    to.push_back ((i64) i * K);
  std::vector<i64> cut (P + 1);
  cut[0] = 0;
  int style = r.range (0, 3);
  for (int i = 1; i < P; ++i)
    cut[i] = style == 0   ? (i64) n * K * i / P
             : style == 1 ? (r.chance (0.5) ? 0 : (i64) n * K)
                          : (i64) r.below ((u64) n * K + 1);
  cut[P] = (i64) n * K;
  std::sort (cut.begin (), cut.end ());
  return part_from_cuts (cut, to, P);
}
inline std::string
part_str (const Part &p)
{
  std::string s = "offsets";
  for (i64 o : p.off)
    s += fmt (" %lld", (long long) o);
  return s;
}
}  // namespace vf
#endif
