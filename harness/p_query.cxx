/* Queries on forests after random histories: C10 ghost layer, C11 ghost exchange, C12 face neighbors, C13 ownership and lookup,
 * C14 search, C15 old/new correspondence and face iteration. */
#include "fcheck.hxx"
#include <t8_forest/t8_forest_iterate.h>
#include <t8_forest/t8_forest_search/t8_forest_search.hxx>
using namespace vf;

/* leaves of other processes that share a face with a leaf of process p, in global order */
static std::vector<int>
model_ghosts (Snap &S, int p)
{
  snap_adjacency (S);
  std::set<int> g;
  for (i64 i = S.off[p]; i < S.off[p + 1]; ++i)
    for (auto &a : S.adj[i])
      for (auto &b : a)
        if (b.leaf < S.off[p] || b.leaf >= S.off[p + 1])
          g.insert (b.leaf);
  return std::vector<int> (g.begin (), g.end ());
}
/* within the checks every rank works on its own: no collective calls there */
static bool
my_violation ()
{
  return st ().nviol > 0;
}
static bool
have_ghost (const World &w)
{
  return w.ghost && w.P > 1 && !w.incomplete;
}

/* ------------------------------------------------------------------ C10 */
static void
check_ghost (World &w)
{
  if (!want ("C10"))
    return;
  w_ctx (w, "ghost?");
  Snap &S = w.S;
  t8_forest_t f = w.f;
  if (!have_ghost (w)) {
    if (!w.ghost || w.P == 1) {
      VF_CHECK (t8_forest_get_num_ghosts (f) == 0, "ghost-none", "%d ghosts without a ghost layer", t8_forest_get_num_ghosts (f));
      VF_CHECK (t8_forest_get_num_ghost_trees (f) == 0, "ghost-none", "%d ghost trees without a ghost layer", t8_forest_get_num_ghost_trees (f));
    }
    return;
  }
  const std::vector<int> G = model_ghosts (S, w.me);
  const i64 n = G.size ();
  count ("layers");
  count ("ghosts", n);
  if (n == 0)
    count ("empty_layers");
  {
    u64 h = S.hash (true);
    seen ("layers", comb (h, w.ghost));
  }
  VF_CHECK (t8_forest_get_num_ghosts (f) == n, "ghost-count", "%d ghosts instead of %lld (algorithm %d)", t8_forest_get_num_ghosts (f), (long long) n, w.ghost);
  std::vector<int> trees;
  for (int j : G)
    if (trees.empty () || trees.back () != S.g[j].t)
      trees.push_back (S.g[j].t);
  const int nt = t8_forest_ghost_num_trees (f), nlt = t8_forest_get_num_local_trees (f);
  VF_CHECK (nt == (int) trees.size (), "ghost-trees", "%d ghost trees instead of %zu", nt, trees.size ());
  VF_CHECK (t8_forest_get_num_ghost_trees (f) == nt, "ghost-trees", "numbers of ghost trees differ: %d and %d", t8_forest_get_num_ghost_trees (f), nt);
  if (my_violation ())
    return;
  i64 k = 0;
  for (int it = 0; it < nt; ++it) {
    const int gt = (int) t8_forest_ghost_get_global_treeid (f, it);
    VF_CHECK (gt == trees[it], "ghost-tree-id", "ghost tree %d is global tree %d instead of %d", it, gt, trees[it]);
    VF_CHECK (t8_forest_global_tree_id (f, nlt + it) == trees[it], "ghost-tree-id", "local id %d is global tree %lld instead of %d", nlt + it,
              (long long) t8_forest_global_tree_id (f, nlt + it), trees[it]);
    const t8_eclass_t ec = (t8_eclass_t) w.m.m.cls[trees[it]];
    VF_CHECK (t8_forest_ghost_get_tree_class (f, it) == ec, "ghost-tree-class", "ghost tree %d has class %d instead of %d", it,
              t8_forest_ghost_get_tree_class (f, it), ec);
    VF_CHECK (t8_forest_get_tree_class (f, nlt + it) == ec, "ghost-tree-class", "tree %d has class %d instead of %d", nlt + it,
              t8_forest_get_tree_class (f, nlt + it), ec);
    VF_CHECK (t8_forest_ghost_get_tree_element_offset (f, it) == k, "ghost-offset", "ghost tree %d has offset %d instead of %lld", it,
              t8_forest_ghost_get_tree_element_offset (f, it), (long long) k);
    i64 ne = 0;
    while (k + ne < n && S.g[G[k + ne]].t == trees[it])
      ++ne;
    const int m = t8_forest_ghost_tree_num_leaf_elements (f, it);
    VF_CHECK (m == ne, "ghost-tree-count", "ghost tree %d has %d leaves instead of %lld", it, m, (long long) ne);
    const t8_element_array_t *arr = t8_forest_ghost_get_tree_leaf_elements (f, it);
    VF_CHECK ((i64) t8_element_array_get_count (arr) == ne, "ghost-tree-count", "the array of ghost tree %d has %zu leaves instead of %lld", it,
              t8_element_array_get_count (arr), (long long) ne);
    if (my_violation ())
      return;
    for (i64 i = 0; i < ne; ++i) {
      const t8_element_t *e = t8_forest_ghost_get_leaf_element (f, it, (t8_locidx_t) i);
      VF_CHECK (e == t8_element_array_index_locidx (arr, (t8_locidx_t) i), "ghost-array", "element %lld of ghost tree %d differs from the array",
                (long long) i, it);
      Leaf x = leaf_of (w.s, ec, e, trees[it], S.maxl);
      const Leaf &y = S.g[G[k + i]];
      if (!x.same (y)) {
        viol ("ghost-element", "ghost %lld is %s instead of %s of process %d (algorithm %d)", (long long) (k + i), leaf_str (x).c_str (), leaf_str (y).c_str (),
              y.owner, w.ghost);
        return;
      }
      VF_CHECK (t8_forest_element_is_ghost (f, e, it), "is-ghost", "ghost %lld is not recognised", (long long) (k + i));
      if (w.mine.chance (0.2) && y.l > 0) {
        El p (w.s, ec);
        w.s->element_get_parent (ec, e, p);
        VF_CHECK (!t8_forest_element_is_ghost (f, p, it), "is-ghost", "the parent of ghost %lld is called a ghost", (long long) (k + i));
        const int ns = w.s->element_get_num_siblings (ec, e);
        El q (w.s, ec);
        w.s->element_get_child (ec, p, w.mine.range (0, ns - 1), q);
        Leaf z = leaf_of (w.s, ec, q, trees[it], S.maxl);
        bool in = false;
        for (i64 j = 0; j < ne; ++j)
          in = in || S.g[G[k + j]].same (z);
        VF_CHECK ((t8_forest_element_is_ghost (f, q, it) != 0) == in, "is-ghost", "sibling %s of a ghost: is_ghost is %d", leaf_str (z).c_str (), !in);
      }
    }
    k += ne;
  }
  if (S.nloc () == 0)
    return; /* no ghost structure on a process without leaves: counts are all it can be asked for */
  /* conversions of all global trees */
  const int firstl = nlt ? (int) t8_forest_global_tree_id (f, 0) : -1;
  for (int gt = 0; gt < w.m.n (); ++gt) {
    int it = -1;
    for (int i = 0; i < nt; ++i)
      if (trees[i] == gt)
        it = i;
    const int r = t8_forest_ghost_get_ghost_treeid (f, gt);
    VF_CHECK (it >= 0 ? r == it : r < 0, "ghost-treeid", "global tree %d is ghost tree %d instead of %d", gt, r, it);
    const int l = nlt && gt >= firstl && gt < firstl + nlt ? gt - firstl : -1;
    const int lg = t8_forest_get_local_or_ghost_id (f, gt);
    VF_CHECK (l >= 0 ? lg == l : it >= 0 ? lg == nlt + it : lg < 0, "local-or-ghost-id", "global tree %d has local or ghost id %d instead of %d", gt, lg,
              l >= 0 ? l : it >= 0 ? nlt + it : -1);
  }
  /* owners */
  std::vector<int> rem;
  for (int j : G)
    if (rem.empty () || rem.back () != S.g[j].owner)
      rem.push_back (S.g[j].owner);
  int nr = -1;
  const int *R = t8_forest_ghost_get_remotes (f, &nr);
  bool same = nr == (int) rem.size ();
  for (int i = 0; same && i < nr; ++i)
    same = R[i] == rem[i];
  std::string rs;
  for (int i = 0; i < nr; ++i)
    rs += fmt ("%d ", R[i]);
  VF_CHECK (same, "remotes", "the remote processes are %s(%d) instead of %zu", rs.c_str (), nr, rem.size ());
  if (same)
    for (int p : rem) {
      i64 e = 0;
      while (S.g[G[e]].owner != p)
        ++e;
      int t = 0;
      while (trees[t] != S.g[G[e]].t)
        ++t;
      VF_CHECK (t8_forest_ghost_remote_first_tree (f, p) == t, "remote-first-tree", "first ghost tree of process %d is %d instead of %d", p,
                t8_forest_ghost_remote_first_tree (f, p), t);
      VF_CHECK (t8_forest_ghost_remote_first_elem (f, p) == e, "remote-first-elem", "first ghost of process %d is %d instead of %lld", p,
                t8_forest_ghost_remote_first_elem (f, p), (long long) e);
    }
}

/* ------------------------------------------------------------------ C11 */
static void
check_exchange (World &w)
{
  if (!run_too ("C11") || w.incomplete)
    return;
  Snap &S = w.S;
  const bool g = have_ghost (w);
  const std::vector<int> G = g ? model_ghosts (S, w.me) : std::vector<int> ();
  const i64 nl = S.nloc (), n = nl + (i64) G.size ();
  if (t8_forest_get_num_ghosts (w.f) != (int) G.size ()) {
    viol ("exchange-count", "%d ghosts instead of %zu", t8_forest_get_num_ghosts (w.f), G.size ());
    return;
  }
  const int rounds = w.r.range (1, 4);
  std::vector<std::vector<unsigned char>> keep;
  for (int rd = 0; rd < rounds; ++rd) {
    const size_t sz = w.r.pick (std::vector<size_t> { 1, 2, 3, 4, 7, 8, 16, 24, 40, 129, 1000 });
    const u64 salt = w.r.next ();
    w_ctx (w, fmt ("exchange%zu", sz).c_str ());
    auto item = [&] (i64 gi, unsigned char *p) {
      u64 h = comb (salt, gi);
      for (size_t i = 0; i < sz; ++i) {
        if (i % 8 == 0)
          h = mix (h);
        p[i] = (unsigned char) (h >> (8 * (i % 8)));
      }
    };
    sc_array_t a;
    sc_array_init_size (&a, sz, n);
    if (n)
      memset (a.array, 0xEE, n * sz);
    for (i64 i = 0; i < nl; ++i)
      item (S.off[w.me] + i, (unsigned char *) sc_array_index (&a, i));
    /* a second call must deliver the values of that time */
    const int again = w.r.chance (0.3) ? 2 : 1;
    std::vector<unsigned char> b (sz);
    for (int x = 0; x < again; ++x) {
      if (x)
        for (i64 i = 0; i < nl; ++i)
          ((unsigned char *) sc_array_index (&a, i))[0] ^= 0x5A;
      t8_forest_ghost_exchange_data (w.f, &a);
      VF_CHECK ((i64) a.elem_count == n && a.elem_size == sz, "exchange-size", "the array was resized");
      for (i64 i = 0; i < n; ++i) {
        item (i < nl ? S.off[w.me] + i : G[i - nl], b.data ());
        if (x)
          b[0] ^= 0x5A;
        if (memcmp (b.data (), sc_array_index (&a, i), sz)) {
          viol (i < nl ? "exchange-local" : "exchange-ghost", "entry %lld of %lld (%s) of size %zu is wrong, round %d", (long long) i, (long long) n,
                i < nl ? "local" : "ghost", sz, x);
          break;
        }
        if (i >= nl)
          count ("values");
      }
    }
    count ("exchanges");
    if (G.size ())
      seen ("exchanges", comb (comb (S.hash (true), sz), w.me));
    sc_array_reset (&a);
  }
}

/* ------------------------------------------------------------------ C12 */
/* the points of face f of a cell of tree t seen from the other side; t2 = tree there (-1: boundary) */
static std::vector<P3>
other_side (const World &w, int t, const Geo &g, int f, int &t2, int &orient)
{
  std::vector<P3> p = face_pts (g, f);
  const int k = root_face (w.m.m.cls[t], g, f);
  orient = 0;
  t2 = t;
  if (k >= 0) {
    const FJoin &j = w.m.join[t][k];
    t2 = j.t;
    orient = j.orient;
    if (t2 < 0)
      return {};
    for (auto &q : p)
      q = cross_face (w.m, t, k, q);
  }
  std::sort (p.begin (), p.end ());
  return p;
}
static std::vector<P3>
sorted_face (const Geo &g, int f)
{
  std::vector<P3> p = face_pts (g, f);
  std::sort (p.begin (), p.end ());
  return p;
}
static void
check_one_leaf (World &w, const std::vector<int> &G, int gi, int lt, const t8_element_t *e)
{
  Snap &S = w.S;
  t8_forest_t f = w.f;
  const t8_eclass_t ec = S.ec (gi);
  const i64 nl = S.nloc ();
  const bool local = gi >= S.off[w.me] && gi < S.off[w.me + 1];
  auto index = [&] (int j) -> i64 {
    if (j >= S.off[w.me] && j < S.off[w.me + 1])
      return j - S.off[w.me];
    auto it = std::lower_bound (G.begin (), G.end (), j);
    return it != G.end () && *it == j ? nl + (it - G.begin ()) : -1;
  };
  for (int fa = 0; fa < (int) S.adj[gi].size (); ++fa) {
    std::vector<std::pair<i64, int>> exp;
    int t2, orient;
    std::vector<P3> pts = other_side (w, S.g[gi].t, S.geo[gi], fa, t2, orient);
    for (auto &b : S.adj[gi][fa]) {
      const i64 x = index (b.leaf);
      if (x >= 0)
        exp.push_back ({ x, b.face });
    }
    const t8_element_t **nb = nullptr;
    int *dual = nullptr, num = -7, ori = -7;
    t8_locidx_t *idx = nullptr;
    t8_eclass_t nec = T8_ECLASS_INVALID;
    t8_gloidx_t gn = -7;
    const bool ext = w.mine.chance (0.7);
    if (ext)
      t8_forest_leaf_face_neighbors_ext (f, lt, e, &nb, fa, &dual, &num, &idx, &nec, &gn, &ori);
    else
      t8_forest_leaf_face_neighbors (f, lt, e, &nb, fa, &dual, &num, &idx, &nec);
    count ("faces");
    count (t2 < 0 ? "boundary_faces" : t2 != S.g[gi].t || S.tf[gi][fa] >= 0 ? "tree_faces" : "inner_faces");
    std::vector<std::pair<i64, int>> got;
    for (int i = 0; i < num; ++i)
      got.push_back ({ idx[i], dual[i] });
    std::sort (got.begin (), got.end ());
    std::sort (exp.begin (), exp.end ());
    if (got != exp) {
      auto str = [] (const std::vector<std::pair<i64, int>> &v) {
        std::string s;
        for (auto &x : v)
          s += fmt ("%lld.%d ", (long long) x.first, x.second);
        return s;
      };
      viol ("neighbors", "%s leaf %s (index %lld) face %d: neighbors %s instead of %s(local %lld, ghosts %zu)", local ? "local" : "ghost",
            leaf_str (S.g[gi]).c_str (), (long long) index (gi), fa, str (got).c_str (), str (exp).c_str (), (long long) nl, G.size ());
    }
    else if (num > 0) {
      const t8_eclass_t tec = (t8_eclass_t) w.m.m.cls[t2];
      VF_CHECK (nec == tec, "neighbor-class", "leaf %s face %d: neighbor class %d instead of %d", leaf_str (S.g[gi]).c_str (), fa, nec, tec);
      if (ext) {
        VF_CHECK (gn == t2, "neighbor-tree", "leaf %s face %d: neighbor tree %lld instead of %d", leaf_str (S.g[gi]).c_str (), fa, (long long) gn, t2);
        VF_CHECK (ori == orient, "neighbor-orientation", "leaf %s face %d: orientation %d instead of %d", leaf_str (S.g[gi]).c_str (), fa, ori, orient);
      }
      for (int i = 0; i < num && nec == tec; ++i) {
        const int j = (int) (idx[i] < nl ? S.off[w.me] + idx[i] : G[idx[i] - nl]);
        Leaf x = leaf_of (w.s, tec, nb[i], t2, S.maxl);
        VF_CHECK (x.same (S.g[j]), "neighbor-element", "leaf %s face %d: neighbor %s has the index of %s", leaf_str (S.g[gi]).c_str (), fa, leaf_str (x).c_str (),
                  leaf_str (S.g[j]).c_str ());
        count (S.g[j].l < S.g[gi].l ? "coarser" : S.g[j].l > S.g[gi].l ? "finer" : "equal");
        if (S.g[j].l == S.g[gi].l - 1 && local && want ("C12")) {
          /* which subface of the neighbor is this face? */
          int nch = w.s->element_get_num_face_children (tec, nb[i], dual[i]);
          std::vector<El> ch;
          std::vector<t8_element_t *> cp;
          for (int c = 0; c < nch; ++c)
            ch.emplace_back (w.s, tec);
          for (auto &c : ch)
            cp.push_back (c);
          std::vector<int> ci (nch);
          w.s->element_get_children_at_face (tec, nb[i], dual[i], cp.data (), nch, ci.data ());
          int sub = -1;
          for (int c = 0; c < nch; ++c) {
            Geo cg = geo_of (w.s, tec, cp[c], FK);
            const int cf = w.s->element_face_get_child_face (tec, nb[i], dual[i], c);
            if (sorted_face (cg, cf) == pts)
              sub = c;
          }
          const int r = t8_forest_leaf_neighbor_subface (f, lt, e, fa, tec, nb[i], dual[i]);
          VF_CHECK (r == sub, "subface", "leaf %s face %d is subface %d instead of %d of its neighbor", leaf_str (S.g[gi]).c_str (), fa, r, sub);
          count ("subfaces");
        }
      }
      if (t2 >= 0 && local) {
        const int o = t8_forest_leaf_face_orientation (f, lt, w.s, e, fa);
        VF_CHECK (o == orient, "face-orientation", "leaf %s face %d: orientation %d instead of %d", leaf_str (S.g[gi]).c_str (), fa, o, orient);
      }
    }
    else
      VF_CHECK (idx == nullptr && nb == nullptr, "no-neighbors", "no neighbors but arrays");
    if (num > 0) {
      T8_FREE (nb);
      T8_FREE (idx);
      T8_FREE (dual);
    }
    if (my_violation ())
      return;
  }
}
/* the neighbor of equal or half size of any element of a local tree */
static void
check_virtual (World &w, int lt, const t8_element_t *e)
{
  Snap &S = w.S;
  t8_forest_t f = w.f;
  const int t = (int) t8_forest_global_tree_id (f, lt);
  const t8_eclass_t ec = (t8_eclass_t) w.m.m.cls[t];
  const Geo g = geo_of (w.s, ec, e, FK);
  const Leaf x = leaf_of (w.s, ec, e, t, S.maxl);
  for (int fa = 0; fa < S_NF[g.shape]; ++fa) {
    int t2, orient;
    std::vector<P3> pts = other_side (w, t, g, fa, t2, orient);
    const t8_eclass_t nec = t8_forest_element_neighbor_eclass (f, lt, e, fa);
    VF_CHECK (t2 < 0 ? nec == T8_ECLASS_INVALID : nec == (t8_eclass_t) w.m.m.cls[t2], "neighbor-eclass", "element %s face %d: neighbor class %d, tree %d",
              leaf_str (x).c_str (), fa, nec, t2);
    if (my_violation ())
      return;
    if (t2 < 0) {
      El d (w.s, ec);
      int nf;
      const t8_gloidx_t r = t8_forest_element_face_neighbor (f, lt, e, d, ec, fa, &nf);
      VF_CHECK (r == -1, "virtual-boundary", "element %s face %d: neighbor in tree %lld beyond the boundary", leaf_str (x).c_str (), fa, (long long) r);
      continue;
    }
    El d (w.s, nec);
    int nf = -7;
    const t8_gloidx_t r = t8_forest_element_face_neighbor (f, lt, e, d, nec, fa, &nf);
    count ("virtual_neighbors");
    if (r != t2) {
      viol ("virtual-tree", "element %s face %d: neighbor in tree %lld instead of %d", leaf_str (x).c_str (), fa, (long long) r, t2);
      return;
    }
    const Geo h = geo_of (w.s, nec, d, FK);
    const Leaf y = leaf_of (w.s, nec, d, t2, S.maxl);
    if (nf < 0 || nf >= S_NF[h.shape] || y.l != x.l || sorted_face (h, nf) != pts || (t2 == t && S.maxl > 0 && y.id == x.id && root_face (ec, g, fa) < 0)) {
      viol ("virtual-neighbor", "element %s face %d: neighbor %s face %d does not share the face", leaf_str (x).c_str (), fa, leaf_str (y).c_str (), nf);
      return;
    }
    if (x.l < S.maxl) {
      const int nch = w.s->element_get_num_face_children (ec, e, fa);
      std::vector<El> ch;
      std::vector<t8_element_t *> cp;
      for (int c = 0; c < nch; ++c)
        ch.emplace_back (w.s, nec);
      for (auto &c : ch)
        cp.push_back (c);
      std::vector<int> df (nch, -7);
      const t8_gloidx_t q = t8_forest_element_half_face_neighbors (f, lt, e, cp.data (), nec, fa, nch, df.data ());
      VF_CHECK (q == t2, "half-tree", "element %s face %d: half neighbors in tree %lld instead of %d", leaf_str (x).c_str (), fa, (long long) q, t2);
      u64 last = 0;
      for (int c = 0; c < nch && q == t2; ++c) {
        const Leaf z = leaf_of (w.s, nec, cp[c], t2, S.maxl);
        const Geo k = geo_of (w.s, nec, cp[c], FK);
        bool ok = z.l == x.l + 1 && z.lo >= y.lo && z.hi <= y.hi && df[c] >= 0 && df[c] < S_NF[k.shape];
        ok = ok && pts_in_face (h, nf, face_pts (k, df[c]));
        ok = ok && (c == 0 || z.id > last);
        last = z.id;
        if (!ok) {
          viol ("half-neighbor", "element %s face %d: half neighbor %d of %d is %s face %d", leaf_str (x).c_str (), fa, c, nch, leaf_str (z).c_str (), df[c]);
          return;
        }
        count ("half_neighbors");
      }
    }
  }
}
static void
check_neighbors (World &w)
{
  if (!want ("C12") || w.incomplete || !(w.P == 1 || have_ghost (w)))
    return;
  w_ctx (w, "neighbors");
  Snap &S = w.S;
  snap_adjacency (S);
  std::string why;
  if (!snap_adjacency_ok (S, why)) {
    viol ("oracle", "adjacency oracle: %s", why.c_str ());
    return;
  }
  const std::vector<int> G = have_ghost (w) ? model_ghosts (S, w.me) : std::vector<int> ();
  if (t8_forest_get_num_ghosts (w.f) != (int) G.size ())
    return; /* C10 */
  seen ("states", S.hash (true));
  const i64 nl = S.nloc ();
  const int nlt = t8_forest_get_num_local_trees (w.f);
  const double p = nl > 400 ? 400.0 / nl : 1;
  i64 k = 0;
  for (int lt = 0; lt < nlt; ++lt)
    for (int i = 0; i < t8_forest_get_tree_num_leaf_elements (w.f, lt); ++i, ++k) {
      const t8_element_t *e = t8_forest_get_leaf_element_in_tree (w.f, lt, i);
      if (w.mine.chance (p))
        check_one_leaf (w, G, (int) (S.off[w.me] + k), lt, e);
      if (my_violation ())
        return;
      if (w.mine.chance (p * 0.3)) {
        /* the leaf, an ancestor or a descendant */
        const t8_eclass_t ec = S.ec ((int) (S.off[w.me] + k));
        El v (w.s, ec);
        w.s->element_copy (ec, e, v);
        const double c = w.mine.unit ();
        if (c < 0.4)
          while (w.s->element_get_level (ec, v) > 0 && w.mine.chance (0.6)) {
            El q (w.s, ec);
            w.s->element_get_parent (ec, v, q);
            w.s->element_copy (ec, q, v);
          }
        else if (c < 0.8)
          while (w.s->element_get_level (ec, v) < S.maxl && w.mine.chance (0.7)) {
            El q (w.s, ec);
            w.s->element_get_child (ec, v, w.mine.range (0, w.s->element_get_num_children (ec, v) - 1), q);
            w.s->element_copy (ec, q, v);
          }
        check_virtual (w, lt, v);
      }
      if (my_violation ())
        return;
    }
  for (i64 i = 0; i < (i64) G.size (); ++i) {
    const int it = t8_forest_ghost_get_ghost_treeid (w.f, S.g[G[i]].t);
    if (it < 0)
      return;
    const int o = t8_forest_ghost_get_tree_element_offset (w.f, it);
    check_one_leaf (w, G, G[i], nlt + it, t8_forest_ghost_get_leaf_element (w.f, it, (t8_locidx_t) (i - o)));
    if (my_violation ())
      return;
    count ("ghost_leaves");
  }
  /* uniform forests */
  bool uni = S.n () > 0;
  for (auto &x : S.g)
    uni = uni && x.l == S.g[0].l;
  if (uni) {
    for (i64 i = 0; i < nl + (i64) G.size (); ++i) {
      const int gi = (int) (i < nl ? S.off[w.me] + i : G[i - nl]);
      for (int fa = 0; fa < (int) S.adj[gi].size (); ++fa) {
        i64 exp = -1;
        int ed = -1;
        for (auto &b : S.adj[gi][fa]) {
          auto it = std::lower_bound (G.begin (), G.end (), b.leaf);
          if (b.leaf >= S.off[w.me] && b.leaf < S.off[w.me + 1])
            exp = b.leaf - S.off[w.me], ed = b.face;
          else if (it != G.end () && *it == b.leaf)
            exp = nl + (it - G.begin ()), ed = b.face;
        }
        int d = -7;
        const i64 r = t8_forest_same_level_leaf_face_neighbor_index (w.f, (t8_locidx_t) i, fa, S.g[gi].t, &d);
        VF_CHECK (exp < 0 ? r < 0 : r == exp && d == ed, "same-level-index", "leaf %s (%lld) face %d: index %lld.%d instead of %lld.%d",
                  leaf_str (S.g[gi]).c_str (), (long long) i, fa, (long long) r, d, (long long) exp, ed);
        count ("uniform_faces");
        if (my_violation ())
          return;
      }
    }
  }
}

/* ------------------------------------------------------------------ C13 */
static El
random_element (World &w, int &t)
{
  Snap &S = w.S;
  Rng &r = w.mine;
  const double c = r.unit ();
  const i64 i = r.below (S.n ());
  t = S.g[i].t;
  const t8_eclass_t ec = (t8_eclass_t) w.m.m.cls[t];
  El v (w.s, ec), q (w.s, ec);
  w.s->element_set_linear_id (ec, v, S.g[i].l, S.g[i].id);
  if (c < 0.35)
    while (w.s->element_get_level (ec, v) > 0 && r.chance (0.7)) {
      w.s->element_get_parent (ec, v, q);
      w.s->element_copy (ec, q, v);
    }
  else if (c < 0.7) {
    const int mode = r.range (0, 2);
    while (w.s->element_get_level (ec, v) < S.maxl && r.chance (0.8)) {
      const int n = w.s->element_get_num_children (ec, v);
      w.s->element_get_child (ec, v, mode == 0 ? 0 : mode == 1 ? n - 1 : r.range (0, n - 1), q);
      w.s->element_copy (ec, q, v);
    }
  }
  return v;
}
static void
check_lookup (World &w)
{
  if (!want ("C13"))
    return;
  w_ctx (w, "lookup");
  Snap &S = w.S;
  t8_forest_t f = w.f;
  const i64 nl = S.nloc ();
  const int nlt = t8_forest_get_num_local_trees (f);
  std::vector<int> lt;
  for (i64 i = S.off[w.me]; i < S.off[w.me + 1]; ++i)
    if (lt.empty () || lt.back () != S.g[i].t)
      lt.push_back (S.g[i].t);
  VF_CHECK (nlt == (int) lt.size (), "local-trees", "%d local trees instead of %zu", nlt, lt.size ());
  VF_CHECK (t8_forest_get_local_num_leaf_elements (f) == nl, "local-count", "%d local leaves instead of %lld", t8_forest_get_local_num_leaf_elements (f), (long long) nl);
  VF_CHECK (t8_forest_get_global_num_leaf_elements (f) == S.n (), "global-count", "%lld leaves instead of %lld",
            (long long) t8_forest_get_global_num_leaf_elements (f), (long long) S.n ());
  VF_CHECK (t8_forest_get_num_global_trees (f) == w.m.n (), "global-trees", "%lld trees instead of %d", (long long) t8_forest_get_num_global_trees (f), w.m.n ());
  VF_CHECK (t8_forest_get_first_local_leaf_element_id (f) == S.off[w.me] || nl == 0, "first-id", "first local leaf is %lld instead of %lld",
            (long long) t8_forest_get_first_local_leaf_element_id (f), (long long) S.off[w.me]);
  if (my_violation ())
    return;
  t8_cmesh_t cm = t8_forest_get_cmesh (f);
  for (int g = 0; g < w.m.n (); ++g) {
    auto it = std::find (lt.begin (), lt.end (), g);
    const int exp = it == lt.end () ? -1 : (int) (it - lt.begin ());
    const int r = t8_forest_get_local_id (f, g);
    VF_CHECK (exp >= 0 ? r == exp : r < 0, "local-id", "global tree %d has local id %d instead of %d", g, r, exp);
    const t8_locidx_t c = t8_cmesh_get_local_id (cm, g);
    if (exp >= 0) {
      VF_CHECK (t8_forest_ltreeid_to_cmesh_ltreeid (f, exp) == c, "cmesh-id", "local tree %d is tree %d of the coarse mesh instead of %d", exp,
                t8_forest_ltreeid_to_cmesh_ltreeid (f, exp), c);
      VF_CHECK (t8_forest_get_coarse_tree (f, exp) == t8_cmesh_get_tree (cm, c), "coarse-tree", "coarse tree of local tree %d is not tree %d of the mesh", exp, c);
      VF_CHECK (t8_forest_get_eclass (f, exp) == (t8_eclass_t) w.m.m.cls[g] && t8_forest_get_tree_class (f, exp) == (t8_eclass_t) w.m.m.cls[g], "class",
                "class of tree %d is wrong", g);
    }
    if (c >= 0 && c < t8_cmesh_get_num_local_trees (cm)) {
      const int b = t8_forest_cmesh_ltreeid_to_ltreeid (f, c);
      VF_CHECK (exp >= 0 ? b == exp : b == -1, "cmesh-id", "tree %d of the coarse mesh is local tree %d instead of %d", c, b, exp);
    }
    count ("tree_ids");
  }
  for (int i = 0; i < nlt + 3; ++i)
    VF_CHECK ((t8_forest_tree_is_local (f, i) != 0) == (i < nlt), "is-local", "tree id %d of %d: is_local is wrong", i, nlt);
  VF_CHECK (!t8_forest_tree_is_local (f, -1), "is-local", "tree id -1 is called local");
  /* leaves by index */
  i64 off = 0;
  for (int i = 0; i < nlt && !my_violation (); ++i) {
    VF_CHECK (t8_forest_get_tree_element_offset (f, i) == off, "offset", "tree %d has offset %d instead of %lld", i, t8_forest_get_tree_element_offset (f, i),
              (long long) off);
    off += t8_forest_get_tree_num_leaf_elements (f, i);
  }
  VF_CHECK (off == nl, "offset", "%lld leaves in the trees instead of %lld", (long long) off, (long long) nl);
  for (int k = 0; k < 40 && nl; ++k) {
    const i64 i = k < 2 ? (k ? nl - 1 : 0) : w.mine.below (nl);
    t8_locidx_t tr = -7;
    const t8_element_t *e = t8_forest_get_leaf_element (f, (t8_locidx_t) i, &tr);
    const Leaf &y = S.g[S.off[w.me] + i];
    if (tr < 0 || tr >= nlt || lt[tr] != y.t || !e || !leaf_of (w.s, S.ec (S.off[w.me] + i), e, y.t, S.maxl).same (y)) {
      viol ("leaf-by-index", "leaf %lld: wrong element or tree %d", (long long) i, tr);
      return;
    }
    count ("leaf_index");
  }
  if (w.P > 1 && nl && !w.incomplete) {
    const int ft = lt.front (), la = lt.back ();
    VF_CHECK ((t8_forest_first_tree_shared (f) != 0) == (S.off[w.me] > 0 && S.g[S.off[w.me] - 1].t == ft), "first-shared", "first tree shared: %d",
              t8_forest_first_tree_shared (f));
    VF_CHECK ((t8_forest_last_tree_shared (f) != 0) == (S.off[w.me + 1] < S.n () && S.g[S.off[w.me + 1]].t == la), "last-shared", "last tree shared: %d",
              t8_forest_last_tree_shared (f));
  }
  if (S.n () == 0)
    return;
  const std::vector<int> G = have_ghost (w) ? model_ghosts (S, w.me) : std::vector<int> ();
  if (t8_forest_get_num_ghosts (f) != (int) G.size ())
    return;
  seen ("states", comb (S.hash (true), w.me));
  snap_elements (S);
  const int N = 60;
  for (int k = 0; k < N && !my_violation (); ++k) {
    int t;
    El v = random_element (w, t);
    const t8_eclass_t ec = (t8_eclass_t) w.m.m.cls[t];
    const Leaf x = leaf_of (w.s, ec, v, t, S.maxl);
    const i64 a = snap_at (S, t, x.lo), b = snap_at (S, t, x.hi);
    /* leaves below or above x */
    i64 fi = -1, la = -1;
    for (i64 i = 0; i < S.n (); ++i)
      if (S.g[i].t == t && !(S.g[i].hi < x.lo || S.g[i].lo > x.hi)) {
        if (fi < 0)
          fi = i;
        la = i;
      }
    count ("elements");
    if (!w.incomplete) {
      if (a < 0 || b < 0) {
        viol ("oracle", "no leaf at %s", leaf_str (x).c_str ());
        return;
      }
      const int own = S.g[a].owner, own2 = S.g[b].owner;
      const bool isd = x.lo == x.hi && x.l == S.maxl;
      VF_CHECK (t8_forest_element_find_owner (f, t, v, ec) == own, "owner", "owner of %s is %d instead of %d", leaf_str (x).c_str (),
                t8_forest_element_find_owner (f, t, v, ec), own);
      const int lo = w.mine.range (0, own), up = w.mine.range (own, w.P - 1), gu = w.mine.range (lo, up);
      const int r = t8_forest_element_find_owner_ext (f, t, v, ec, lo, up, gu, isd);
      VF_CHECK (r == own, "owner-ext", "owner of %s is %d instead of %d (bounds %d %d guess %d)", leaf_str (x).c_str (), r, own, lo, up, gu);
      for (int p = 0; p < w.P; ++p) {
        const bool c = t8_forest_element_check_owner (f, v, t, ec, p, isd);
        VF_CHECK (c == (p == own), "check-owner", "process %d owns %s: %d, the owner is %d", p, leaf_str (x).c_str (), c, own);
      }
      int l2 = 0, u2 = w.P - 1;
      if (w.mine.chance (0.5)) {
        l2 = w.mine.range (0, own);
        u2 = w.mine.range (own2, w.P - 1);
      }
      const int l0 = l2, u0 = u2;
      t8_forest_element_owners_bounds (f, t, v, ec, &l2, &u2);
      VF_CHECK (l2 >= l0 && u2 <= u0 && l2 <= own && u2 >= own2, "owner-bounds", "bounds of the owners of %s: [%d,%d] from [%d,%d], owners are %d..%d", leaf_str (x).c_str (),
                l2, u2, l0, u0, own, own2);
      count ("owners");
      if (own != own2)
        count ("split_elements");
      /* faces */
      const Geo g = geo_of (w.s, ec, v, FK);
      auto owners_at = [&] (int t_, const Leaf &x_, const Geo &g_, int fa) {
        std::set<int> o;
        const i64 a_ = snap_at (S, t_, x_.lo), b_ = snap_at (S, t_, x_.hi);
        for (i64 i = a_; i >= 0 && i <= b_; ++i) {
          if (S.g[i].l <= x_.l) {
            o.insert (S.g[i].owner);
            continue;
          }
          for (int q = 0; q < S_NF[S.geo[i].shape]; ++q)
            if (pts_in_face (g_, fa, face_pts (S.geo[i], q)))
              o.insert (S.g[i].owner);
        }
        return std::vector<int> (o.begin (), o.end ());
      };
      auto str = [] (const std::vector<int> &q) {
        std::string s;
        for (int z : q)
          s += fmt ("%d ", z);
        return s;
      };
      for (int fa = 0; fa < S_NF[g.shape]; ++fa) {
        std::vector<int> exp = owners_at (t, x, g, fa);
        sc_array_t o;
        sc_array_init (&o, sizeof (int));
        if (w.mine.chance (0.3)) {
          *(int *) sc_array_push (&o) = w.mine.range (0, exp.front ());
          *(int *) sc_array_push (&o) = w.mine.range (exp.back (), w.P - 1);
        }
        t8_forest_element_owners_at_face (f, t, v, ec, fa, &o);
        std::vector<int> got ((int *) o.array, (int *) o.array + o.elem_count);
        VF_CHECK (got == exp, "owners-at-face", "owners of %s at face %d: %s instead of %s", leaf_str (x).c_str (), fa, str (got).c_str (), str (exp).c_str ());
        sc_array_reset (&o);
        int fl = 0, fu = w.P - 1;
        t8_forest_element_owners_at_face_bounds (f, t, v, ec, fa, &fl, &fu);
        VF_CHECK (fl <= exp.front () && fu >= exp.back (), "face-bounds", "owners of %s at face %d: bounds [%d,%d], owners %s", leaf_str (x).c_str (), fa, fl, fu,
                  str (exp).c_str ());
        count ("owners_at_face");
        if (exp.size () > 1)
          count ("split_faces");
        auto il = std::find (lt.begin (), lt.end (), t);
        if (il != lt.end ()) {
          const int ltr = (int) (il - lt.begin ());
          int t2, orient;
          std::vector<P3> pts = other_side (w, t, g, fa, t2, orient);
          std::vector<int> e2;
          if (t2 >= 0) {
            const t8_eclass_t nec = (t8_eclass_t) w.m.m.cls[t2];
            El d (w.s, nec);
            int nf = -1;
            if (t8_forest_element_neighbor_eclass (f, ltr, v, fa) != nec || t8_forest_element_face_neighbor (f, ltr, v, d, nec, fa, &nf) != t2)
              continue; /* C12 */
            e2 = owners_at (t2, leaf_of (w.s, nec, d, t2, S.maxl), geo_of (w.s, nec, d, FK), nf);
          }
          sc_array_init (&o, sizeof (int));
          t8_forest_element_owners_at_neigh_face (f, ltr, v, fa, &o);
          got.assign ((int *) o.array, (int *) o.array + o.elem_count);
          VF_CHECK (got == e2, "owners-at-neighbor-face", "owners across face %d of %s: %s instead of %s", fa, leaf_str (x).c_str (), str (got).c_str (),
                    str (e2).c_str ());
          sc_array_reset (&o);
          fl = 0, fu = w.P - 1;
          t8_forest_element_owners_at_neigh_face_bounds (f, ltr, v, fa, &fl, &fu);
          VF_CHECK (e2.empty () ? fl > fu : fl <= e2.front () && fu >= e2.back (), "neighbor-bounds", "owners across face %d of %s: bounds [%d,%d], owners %s", fa,
                    leaf_str (x).c_str (), fl, fu, str (e2).c_str ());
        }
        if (my_violation ())
          return;
      }
    }
    /* local lookup */
    auto il = std::find (lt.begin (), lt.end (), t);
    bool desc = false;
    for (i64 i = S.off[w.me]; i < S.off[w.me + 1]; ++i)
      desc = desc || (S.g[i].t == t && S.g[i].lo >= x.lo && S.g[i].hi <= x.hi && S.g[i].l > x.l);
    for (int j : G)
      desc = desc || (S.g[j].t == t && S.g[j].lo >= x.lo && S.g[j].hi <= x.hi && S.g[j].l > x.l);
    VF_CHECK ((t8_forest_element_has_leaf_desc (f, t, v, ec) != 0) == desc, "has-leaf-desc", "%s has leaf descendants: %d", leaf_str (x).c_str (), !desc);
    if (il != lt.end ()) {
      const int ltr = (int) (il - lt.begin ());
      const i64 e = snap_find (S, x);
      const bool leaf = e >= S.off[w.me] && e < S.off[w.me + 1];
      VF_CHECK ((t8_forest_element_is_leaf (f, v, ltr) != 0) == leaf, "is-leaf", "%s is a leaf: %d", leaf_str (x).c_str (), !leaf);
      VF_CHECK ((t8_forest_element_is_leaf_or_ghost (f, v, ltr, 0) != 0) == leaf, "is-leaf", "%s is a leaf: %d", leaf_str (x).c_str (), !leaf);
      /* searches in the leaves of the tree */
      const t8_element_array_t *arr = t8_forest_get_tree_leaf_element_array (f, ltr);
      const int n = (int) t8_element_array_get_count (arr);
      const int lv = w.mine.chance (0.5) ? S.maxl : x.l;
      const u64 id = w.s->element_get_linear_id (ec, v, lv);
      int low = -1, upp = -1, da = -1;
      for (int i = 0; i < n; ++i) {
        const t8_element_t *q = t8_element_array_index_locidx (arr, i);
        const u64 qi = w.s->element_get_linear_id (ec, q, lv);
        if (qi <= id)
          low = i;
        if (qi >= id && upp < 0)
          upp = i;
        const Leaf z = leaf_of (w.s, ec, q, t, S.maxl);
        if (da < 0 && !(z.hi < x.lo || z.lo > x.hi))
          da = i;
      }
      VF_CHECK (t8_forest_bin_search_lower (arr, id, lv) == low, "search-lower", "lower search of id %llu at level %d: %d instead of %d", (unsigned long long) id, lv,
                t8_forest_bin_search_lower (arr, id, lv), low);
      VF_CHECK (t8_forest_bin_search_upper (arr, id, lv) == upp, "search-upper", "upper search of id %llu at level %d: %d instead of %d", (unsigned long long) id, lv,
                t8_forest_bin_search_upper (arr, id, lv), upp);
      const t8_element_t *fo = (const t8_element_t *) &w;
      const int r = t8_forest_bin_search_first_descendant_ancestor (arr, v, &fo);
      VF_CHECK (r == da && (da < 0 ? fo == nullptr : fo == t8_element_array_index_locidx (arr, da)), "search-relative", "%s: first relative is %d instead of %d",
                leaf_str (x).c_str (), r, da);
      count ("searches");
    }
    if (have_ghost (w) && S.nloc () > 0) {
      const int it = t8_forest_ghost_get_ghost_treeid (f, t);
      if (it >= 0) {
        const i64 e = snap_find (S, x);
        const bool gh = e >= 0 && std::binary_search (G.begin (), G.end (), (int) e);
        VF_CHECK ((t8_forest_element_is_leaf_or_ghost (f, v, it, 1) != 0) == gh, "is-ghost", "%s is a ghost: %d", leaf_str (x).c_str (), !gh);
      }
    }
  }
}

/* ------------------------------------------------------------------ C14 */
struct SCall
{
  int lt;
  Leaf x;
  int leaf, first, n;
  std::vector<size_t> q; /* active queries, empty: not asked */
  bool
  operator== (const SCall &o) const
  {
    return lt == o.lt && x.same (o.x) && leaf == o.leaf && first == o.first && n == o.n && q == o.q;
  }
};
struct SCtx
{
  World *w;
  u64 salt;
  double pe, pq;
  size_t nq;
  std::vector<SCall> log;
  bool bad = false;
  std::string why;
  std::vector<u64> queries;
  double
  u (const Leaf &x, u64 k) const
  {
    return (comb (comb (comb (salt, x.t * 64 + x.l), x.id), k) >> 11) * (1.0 / 9007199254740992.0);
  }
  bool
  element (const Leaf &x) const
  {
    return u (x, 1) < pe;
  }
  bool
  query (const Leaf &x, u64 q) const
  {
    return u (x, q) < pq;
  }
};
static SCtx *sctx = nullptr;
static void
s_event (t8_forest_t f, int lt, const t8_element_t *e, int leaf, const t8_element_array_t *arr, int first, std::vector<size_t> *q)
{
  SCtx &c = *sctx;
  World &w = *c.w;
  const t8_eclass_t ec = t8_forest_get_tree_class (f, lt);
  const int t = (int) t8_forest_global_tree_id (f, lt);
  SCall s { lt, leaf_of (w.s, ec, e, t, w.S.maxl), leaf != 0, first, (int) t8_element_array_get_count (arr), {} };
  if (f != w.f) {
    c.bad = true;
    c.why = "other forest";
  }
  /* the passed array must be this range of the leaves of the tree */
  for (int i = 0; i < s.n; i += std::max (1, std::min (s.n - 1 - i, s.n / 3)))
    if (first + i >= t8_forest_get_tree_num_leaf_elements (f, lt)
        || t8_element_array_index_locidx (arr, i) != t8_forest_get_leaf_element_in_tree (f, lt, first + i)) {
      c.bad = true;
      c.why = fmt ("entry %d of the leaves of %s is not leaf %d of the tree", i, leaf_str (s.x).c_str (), first + i);
    }
  if (q) {
    s.q = *q;
    if (c.log.empty () || !c.log.back ().q.empty () || !c.log.back ().x.same (s.x) || c.log.back ().first != s.first || c.log.back ().n != s.n) {
      c.bad = true;
      c.why = fmt ("queries for %s without a preceding element call", leaf_str (s.x).c_str ());
    }
    else
      c.log.back ().q = *q;
  }
  else
    c.log.push_back (s);
}
static int
s_fn (t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int leaf, const t8_element_array_t *arr, const t8_locidx_t first)
{
  s_event (f, lt, e, leaf, arr, first, nullptr);
  return sctx->element (sctx->log.back ().x);
}
static void
q_fn (t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int leaf, const t8_element_array_t *arr, const t8_locidx_t first, sc_array_t *queries,
      sc_array_t *idx, int *match, const size_t n)
{
  std::vector<size_t> q;
  for (size_t i = 0; i < n; ++i)
    q.push_back (*(size_t *) sc_array_index (idx, i));
  if (n != idx->elem_count || queries->elem_count != sctx->nq)
    sctx->bad = true, sctx->why = "wrong number of queries";
  s_event (f, lt, e, leaf, arr, first, &q);
  const Leaf x = sctx->log.back ().x;
  for (size_t i = 0; i < n; ++i)
    match[i] = sctx->query (x, *(u64 *) sc_array_index (queries, q[i]));
}
static void
model_search (SCtx &c, int lt, t8_eclass_t ec, const El &e, int first, int n, const std::vector<Leaf> &leaves, std::vector<size_t> act, std::vector<SCall> &out)
{
  World &w = *c.w;
  const int t = (int) t8_forest_global_tree_id (w.f, lt);
  const Leaf x = leaf_of (w.s, ec, e, t, w.S.maxl);
  if (n == 0 || (c.nq && act.empty ()))
    return;
  const bool leaf = n == 1 && leaves[first].l == x.l;
  SCall s { lt, x, leaf, first, n, {} };
  const bool go = c.element (x);
  if (go && c.nq)
    s.q = act;
  out.push_back (s);
  if (!go || leaf)
    return;
  if (c.nq) {
    std::vector<size_t> a;
    for (size_t q : act)
      if (c.query (x, c.queries[q]))
        a.push_back (q);
    act = a;
    if (act.empty ())
      return;
  }
  int pos = first;
  for (int k = 0; k < w.s->element_get_num_children (ec, e); ++k) {
    El ch (w.s, ec);
    w.s->element_get_child (ec, e, k, ch);
    const Leaf y = leaf_of (w.s, ec, ch, t, w.S.maxl);
    int m = 0;
    while (pos + m < first + n) {
      const Leaf &z = leaves[pos + m];
      if (z.lo < y.lo || z.hi > y.hi)
        break;
      ++m;
    }
    model_search (c, lt, ec, ch, pos, m, leaves, act, out);
    pos += m;
  }
}
/* the query type must differ from size_t: the class overloads update_queries on the two vector types */
typedef unsigned long long ull;
static void
check_search (World &w)
{
  if (!want ("C14"))
    return;
  auto leaves = w_local_elements (w.f);
  std::vector<std::vector<Leaf>> LL (leaves.size ());
  for (size_t lt = 0; lt < leaves.size (); ++lt)
    for (auto &e : leaves[lt])
      LL[lt].push_back (leaf_of (w.s, t8_forest_get_tree_class (w.f, (t8_locidx_t) lt), e, (int) t8_forest_global_tree_id (w.f, (t8_locidx_t) lt), w.S.maxl));
  for (int rep = 0; rep < 5; ++rep) {
    SCtx c;
    c.w = &w;
    c.salt = w.r.next ();
    c.pe = w.r.pick (std::vector<double> { 1, 0.9, 0.7 });
    c.pq = w.r.pick (std::vector<double> { 1, 0.8, 0.5, 0 });
    const int kind = w.r.range (0, 5); /* 0,1: C search without/with queries; 2,3,4: C++ plain, queries, batched; 5: C without queries */
    c.nq = kind == 1 || kind == 3 || kind == 4 ? w.r.range (0, 6) : 0;
    const bool wq = kind == 1 || kind == 3 || kind == 4;
    for (size_t i = 0; i < c.nq; ++i)
      c.queries.push_back (w.r.next ());
    w_ctx (w, fmt ("search%d.%zu", kind, c.nq).c_str ());
    std::vector<SCall> exp;
    if (!wq || c.nq)
      for (size_t lt = 0; lt < leaves.size (); ++lt) {
        const t8_eclass_t ec = t8_forest_get_tree_class (w.f, (t8_locidx_t) lt);
        if (leaves[lt].empty ())
          continue;
        El nca (w.s, ec);
        /* nearest common ancestor by walking up from the first leaf */
        w.s->element_copy (ec, leaves[lt].front (), nca);
        const Leaf z = leaf_of (w.s, ec, leaves[lt].back (), 0, w.S.maxl);
        while (leaf_of (w.s, ec, nca, 0, w.S.maxl).hi < z.hi) {
          El q (w.s, ec);
          w.s->element_get_parent (ec, nca, q);
          w.s->element_copy (ec, q, nca);
        }
        std::vector<size_t> act;
        for (size_t i = 0; i < c.nq; ++i)
          act.push_back (i);
        model_search (c, (int) lt, ec, nca, 0, (int) leaves[lt].size (), LL[lt], act, exp);
      }
    sctx = &c;
    int ud = 42, ud2 = 43;
    if (kind <= 1 || kind == 5) {
      sc_array_t q;
      sc_array_init_size (&q, sizeof (u64), c.nq);
      for (size_t i = 0; i < c.nq; ++i)
        *(u64 *) sc_array_index (&q, i) = c.queries[i];
      if (kind == 1)
        t8_forest_search (w.f, s_fn, q_fn, &q);
      else
        t8_forest_search (w.f, s_fn, nullptr, nullptr);
      sc_array_reset (&q);
    }
    else {
      int *want_ud = &ud;
      auto el = [&] (const t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *arr, const t8_locidx_t first,
                     int *user) -> bool {
        if (user != want_ud)
          c.bad = true, c.why = "other user data";
        return s_fn (f, lt, e, leaf, arr, first);
      };
      /* start on this forest or be moved to it */
      const bool upd = w.r.chance (0.4);
      const std::vector<ull> cq (c.queries.begin (), c.queries.end ());
      std::vector<ull> q0 = upd ? std::vector<ull> (w.r.range (0, 4), 99) : cq, q1 = cq;
      const bool nof = upd && w.r.chance (0.5);
      if (upd)
        want_ud = &ud2;
      t8_forest_t f0 = nof ? nullptr : w.f;
      if (kind == 2) {
        t8_search<int> s (el, f0, &ud);
        if (upd) {
          s.update_forest (w.f);
          s.update_user_data (&ud2);
        }
        s.do_search ();
      }
      else if (kind == 3) {
        std::vector<size_t> cur;
        auto qf = [&] (const t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *arr, const t8_locidx_t first,
                       const ull &q, int *user) -> bool {
          if (user != want_ud)
            c.bad = true, c.why = "other user data";
          size_t qi = 0;
          while (qi < c.queries.size () && c.queries[qi] != q)
            ++qi;
          std::vector<size_t> one { qi };
          /* collect the single calls of one element */
          SCall &l = c.log.back ();
          if (l.q.empty ())
            s_event (f, lt, e, leaf, arr, first, &one);
          else
            l.q.push_back (qi);
          return c.query (l.x, q);
        };
        t8_search_with_queries<ull, int> s (el, qf, q0, f0, &ud);
        if (upd) {
          s.update_forest (w.f);
          s.update_user_data (&ud2);
          s.update_queries (q1);
        }
        s.do_search ();
      }
      else {
        auto qf = [&] (const t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *arr, const t8_locidx_t first,
                       const std::vector<ull> &qs, const std::vector<size_t> &act, std::vector<bool> &match, int *user) {
          if (user != want_ud)
            c.bad = true, c.why = "other user data";
          if (qs != cq || match.size () < qs.size ())
            c.bad = true, c.why = "other queries";
          std::vector<size_t> a = act;
          s_event (f, lt, e, leaf, arr, first, &a);
          const Leaf x = c.log.back ().x;
          for (size_t i = 0; i < match.size (); ++i)
            if (match[i])
              c.bad = true, c.why = "a query matches before it was looked at";
          for (size_t i : act)
            if (c.query (x, qs[i]))
              match[i] = true;
            else if (c.salt & 1) /* entries that are not set do not match */
              match[i] = false;
        };
        t8_search_with_batched_queries<ull, int> s (el, qf, q0, f0, &ud);
        if (upd) {
          s.update_forest (w.f);
          s.update_user_data (&ud2);
          s.update_queries (q1);
        }
        s.do_search ();
      }
    }
    sctx = nullptr;
    VF_CHECK (!c.bad, "search-arguments", "kind %d: %s", kind, c.why.c_str ());
    count ("searches");
    count ("visits", c.log.size ());
    seen ("searches", comb (comb (w.S.hash (true), c.salt), kind));
    for (auto &s : c.log) {
      count ("queries", s.q.size ());
      if (s.leaf)
        count ("leaf_visits");
    }
    size_t i = 0;
    while (i < c.log.size () && i < exp.size () && c.log[i] == exp[i])
      ++i;
    if (i < c.log.size () || i < exp.size ()) {
      auto str = [] (const std::vector<SCall> &v, size_t k) {
        return k < v.size () ? fmt ("tree %d %s leaf %d leaves [%d,+%d) queries %zu", v[k].lt, leaf_str (v[k].x).c_str (), v[k].leaf, v[k].first, v[k].n, v[k].q.size ())
                             : std::string ("the end");
      };
      viol ("search-trace", "kind %d with %zu queries: visit %zu is %s instead of %s", kind, c.nq, i, str (c.log, i).c_str (), str (exp, i).c_str ());
    }
    if (my_violation ())
      return;
  }
}

/* ------------------------------------------------------------------ C15 */
struct RCall
{
  int lt, ref, no, fo, ni, fi;
};
struct RCtx
{
  t8_forest_t o, n;
  const t8_scheme *s;
  std::vector<RCall> log;
  bool bad = false;
};
static RCtx *rctx = nullptr;
static void
replace_cb (t8_forest_t o, t8_forest_t n, t8_locidx_t lt, const t8_eclass_t ec, const t8_scheme_c *s, int refine, int no, t8_locidx_t fo, int ni, t8_locidx_t fi)
{
  if (o != rctx->o || n != rctx->n || s != rctx->s || t8_forest_get_tree_class (o, lt) != ec)
    rctx->bad = true;
  rctx->log.push_back (RCall { lt, refine, no, fo, ni, fi });
}
static void
check_replace (World &w, t8_forest_t old)
{
  if (!want ("C15"))
    return;
  w_ctx (w, "replace");
  auto A = w_local_elements (old), B = w_local_elements (w.f);
  VF_CHECK (A.size () == B.size (), "replace-trees", "%zu and %zu local trees", A.size (), B.size ());
  if (my_violation ())
    return;
  RCtx c { old, w.f, w.s, {} };
  rctx = &c;
  t8_forest_iterate_replace (w.f, old, replace_cb);
  rctx = nullptr;
  VF_CHECK (!c.bad, "replace-arguments", "other forests, scheme or class");
  size_t k = 0;
  for (size_t lt = 0; lt < A.size (); ++lt) {
    const t8_eclass_t ec = t8_forest_get_tree_class (old, (t8_locidx_t) lt);
    auto L = [&] (const El &e) { return leaf_of (w.s, ec, e, 0, w.S.maxl); };
    size_t i = 0, j = 0;
    while (i < A[lt].size () || j < B[lt].size ()) {
      RCall e { (int) lt, 0, 1, (int) i, 1, (int) j };
      if (j >= B[lt].size ()) {
        e.ref = -2, e.ni = 0, e.fi = -1;
        ++i;
      }
      else if (i >= A[lt].size ()) {
        viol ("oracle", "new leaves without old ones");
        return;
      }
      else {
        const Leaf a = L (A[lt][i]), b = L (B[lt][j]);
        if (a.hi < b.lo) {
          e.ref = -2, e.ni = 0, e.fi = -1;
          ++i;
        }
        else if (a.same (b))
          ++i, ++j;
        else if (a.l < b.l) {
          e.ref = 1;
          e.ni = 0;
          while (j < B[lt].size () && L (B[lt][j]).lo <= a.hi)
            ++j, ++e.ni;
          ++i;
        }
        else {
          e.ref = -1;
          e.no = 0;
          while (i < A[lt].size () && L (A[lt][i]).lo <= b.hi)
            ++i, ++e.no;
          ++j;
        }
      }
      auto str = [] (const RCall &r) { return fmt ("tree %d: %d, %d from %d to %d from %d", r.lt, r.ref, r.no, r.fo, r.ni, r.fi); };
      if (k >= c.log.size ()) {
        viol ("replace-trace", "call %zu is missing: %s", k, str (e).c_str ());
        return;
      }
      const RCall &g = c.log[k];
      if (g.lt != e.lt || g.ref != e.ref || g.no != e.no || g.fo != e.fo || g.ni != e.ni || (e.ref != -2 && g.fi != e.fi)) {
        viol ("replace-trace", "call %zu is %s instead of %s", k, str (g).c_str (), str (e).c_str ());
        return;
      }
      count (e.ref == 0 ? "kept" : e.ref == 1 ? "refined" : e.ref == -1 ? "coarsened" : "removed");
      ++k;
    }
  }
  VF_CHECK (k == c.log.size (), "replace-trace", "%zu calls too many", c.log.size () - k);
  count ("replacements");
  seen ("replacements", comb (w.S.hash (true), c.log.size ()));
}
struct FCtx
{
  World *w;
  int lt;
  std::vector<std::pair<Leaf, std::array<int, 4>>> log; /* element; face, is_leaf, first, count */
  double p;
  u64 salt;
  bool bad = false;
};
static bool
f_go (const FCtx &c, const Leaf &x)
{
  return (comb (comb (comb (c.salt, x.t * 64 + x.l), x.id), 5) >> 11) * (1.0 / 9007199254740992.0) < c.p;
}
static int
face_cb (const t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int face, const int leaf, const t8_element_array_t *arr, const t8_locidx_t first,
         void *user)
{
  FCtx &c = *(FCtx *) user;
  World &w = *c.w;
  if (f != w.f || lt != c.lt)
    c.bad = true;
  const Leaf x = leaf_of (w.s, t8_forest_get_tree_class (f, lt), e, (int) t8_forest_global_tree_id (f, lt), w.S.maxl);
  const int nlt = t8_forest_get_num_local_trees (f), n = (int) t8_element_array_get_count (arr);
  for (int i = 0; i < n; ++i) {
    const t8_element_t *q = t8_element_array_index_locidx (arr, i);
    if (lt < nlt ? q != t8_forest_get_leaf_element_in_tree (f, lt, first + i) : q != t8_forest_ghost_get_leaf_element (f, lt - nlt, first + i))
      c.bad = true;
  }
  c.log.push_back ({ x, { face, leaf != 0, first, n } });
  return f_go (c, x);
}
static void
check_faces (World &w)
{
  if (!want ("C15"))
    return;
  const int nlt = t8_forest_get_num_local_trees (w.f), ngt = have_ghost (w) ? t8_forest_get_num_ghost_trees (w.f) : 0;
  if (nlt + ngt == 0)
    return;
  w_ctx (w, "faces");
  for (int rep = 0; rep < 30; ++rep) {
    const int lt = w.mine.range (0, nlt + ngt - 1);
    const int t = (int) t8_forest_global_tree_id (w.f, lt);
    const t8_eclass_t ec = (t8_eclass_t) w.m.m.cls[t];
    const t8_element_array_t *arr = lt < nlt ? t8_forest_get_tree_leaf_element_array (w.f, lt) : t8_forest_ghost_get_tree_leaf_elements (w.f, lt - nlt);
    const int n = (int) t8_element_array_get_count (arr);
    if (n == 0)
      continue;
    /* an ancestor of a leaf */
    El v (w.s, ec, t8_element_array_index_locidx (arr, w.mine.range (0, n - 1)));
    while (w.s->element_get_level (ec, v) > 0 && w.mine.chance (0.7)) {
      El q (w.s, ec);
      w.s->element_get_parent (ec, v, q);
      w.s->element_copy (ec, q, v);
    }
    const Leaf x = leaf_of (w.s, ec, v, t, w.S.maxl);
    int first = -1, cnt = 0;
    std::vector<Leaf> lv;
    std::vector<Geo> lg;
    for (int i = 0; i < n; ++i) {
      const t8_element_t *q = t8_element_array_index_locidx (arr, i);
      const Leaf z = leaf_of (w.s, ec, q, t, w.S.maxl);
      if (z.lo >= x.lo && z.hi <= x.hi) {
        if (first < 0)
          first = i;
        ++cnt;
        lv.push_back (z);
        lg.push_back (geo_of (w.s, ec, q, FK));
      }
    }
    const Geo g = geo_of (w.s, ec, v, FK);
    const int face = w.mine.range (0, S_NF[g.shape] - 1);
    t8_element_array_t view;
    t8_element_array_init_view (&view, arr, first, cnt);
    FCtx c { &w, lt, {}, w.mine.pick (std::vector<double> { 1, 1, 0.8 }), w.mine.next (), false };
    t8_forest_iterate_faces (w.f, lt, v, face, &view, first, face_cb, &c);
    count ("face_iterations");
    VF_CHECK (!c.bad, "face-arguments", "wrong arguments or leaf arrays for face %d of %s", face, leaf_str (x).c_str ());
    /* the visited leaves: those with a face on the face, all of whose visited ancestors said yes */
    std::vector<std::pair<Leaf, int>> exp, got;
    for (size_t i = 0; i < lv.size (); ++i) {
      int on = -1;
      for (int q = 0; q < S_NF[lg[i].shape]; ++q)
        if (pts_in_face (g, face, face_pts (lg[i], q)))
          on = q;
      if (lv[i].same (x))
        on = face;
      if (on < 0)
        continue;
      bool yes = true;
      El a (w.s, ec), b (w.s, ec);
      w.s->element_set_linear_id (ec, a, lv[i].l, lv[i].id);
      while (w.s->element_get_level (ec, a) > x.l) {
        w.s->element_get_parent (ec, a, b);
        w.s->element_copy (ec, b, a);
        yes = yes && f_go (c, leaf_of (w.s, ec, a, t, w.S.maxl));
      }
      if (yes)
        exp.push_back ({ lv[i], on });
    }
    size_t k = 0;
    for (auto &l : c.log) {
      i64 in = 0, fi = -1;
      for (int i = 0; i < (int) lv.size (); ++i)
        if (lv[i].lo >= l.first.lo && lv[i].hi <= l.first.hi) {
          if (fi < 0)
            fi = first + i;
          ++in;
        }
      const bool leaf = in == 1 && lv[fi - first].same (l.first);
      VF_CHECK ((l.second[1] != 0) == leaf && l.second[2] == fi && l.second[3] == in, "face-visit", "visit %zu of %s: leaf %d, leaves [%d,+%d) instead of %d, [%lld,+%lld)", k,
                leaf_str (l.first).c_str (), l.second[1], l.second[2], l.second[3], leaf, (long long) fi, (long long) in);
      ++k;
      if (l.second[1])
        got.push_back ({ l.first, l.second[0] });
    }
    auto cmp = [] (const std::pair<Leaf, int> &a, const std::pair<Leaf, int> &b) { return a.first.lo < b.first.lo; };
    std::sort (got.begin (), got.end (), cmp);
    bool ok = got.size () == exp.size ();
    for (size_t i = 0; ok && i < got.size (); ++i)
      ok = got[i].first.same (exp[i].first) && got[i].second == exp[i].second;
    VF_CHECK (ok, "face-leaves", "face %d of %s: %zu leaves visited instead of %zu (or other faces)", face, leaf_str (x).c_str (), got.size (), exp.size ());
    count ("face_leaves", got.size ());
    seen ("face_iterations", comb (comb (w.S.hash (true), x.lo), comb (t, face * 64 + x.l)));
    if (my_violation ())
      return;
  }
}

static void
check_all (World &w)
{
  check_ghost (w);
  if (!any_violation ())
    check_exchange (w);
  if (!any_violation ())
    check_neighbors (w);
  if (!any_violation ())
    check_lookup (w);
  if (!any_violation ())
    check_search (w);
  if (!any_violation ())
    check_faces (w);
}

static void
run_case (i64 k, u64 seed)
{
  World w (seed, st ().comm);
  const int before = held_blocks ();
  w.limit = opt_int ("limit", 700);
  /* small families of which members are removed before they are coarsened */
  const bool gaps = st ().prop == "C15" && w.r.chance (0.35);
  if (gaps) {
    const int sid = w.r.chance (0.8) ? 0 : 1;
    const std::vector<int> only = sid ? w.r.pick (std::vector<std::vector<int>> { { HEX }, { TET }, { QUAD, TRI } })
                                      : w.r.pick (std::vector<std::vector<int>> { { PYR }, { PYR, TET }, { PYR }, { HEX, PRISM }, { TRI, QUAD } });
    w.make_mesh = [only] (Rng &r) { return fm_abstract (r, r.range (1, 3), only); };
    w_start (w, sid, 3, w.r.range (1, 2));
  }
  else
    w_start (w, w.r.chance (0.7) ? 0 : 1, w.r.chance (0.3) ? 1 : w.r.range (1, 8));
  w.hist = fmt ("case %lld seed %llu ", (long long) k, (unsigned long long) st ().seed) + w.hist;
  ctx ("%s", w.hist.c_str ());
  check_all (w);
  const int nops = gaps ? 8 : w.r.range (1, 4);
  for (int i = 0; i < nops && !any_violation (); ++i) {
    OpSpec o = random_op (w);
    if (gaps) {
      o.what = W_ADAPT;
      o.rec = false;
      o.weights = 0;
      o.ghost = 0;
      o.offsets = o.for_coarsening = false;
      o.d.force_target = o.d.coarse_all = false;
      o.d.tree = -1;
      o.d.cap = 3;
      o.d.prem = i % 2 ? 0 : w.r.pick (std::vector<double> { 0.1, 0.3, 0.6 });
      o.d.pco = i % 2 ? w.r.pick (std::vector<double> { 0.7, 1 }) : 0;
      o.d.pref = i % 2 || w.S.n () > w.limit / 3 ? 0 : w.r.pick (std::vector<double> { 0, 0.2, 0.5 });
    }
    if ((st ().prop == "C14" || st ().prop == "C15") && w.m.m.dim == 3 && (o.what & W_BAL)) {
      /* balancing deep pyramids is slow and says nothing here */
      o.what &= ~W_BAL;
      if (!o.what)
        o.what = W_COPY;
    }
    const bool needs_ghost = st ().prop != "C14" && st ().prop != "C15";
    if (needs_ghost)
      o.d.prem = w.r.chance (0.1) && st ().prop == "C13" ? o.d.prem : 0;
    if (!w.incomplete && o.d.prem == 0 && w.r.chance (needs_ghost ? 0.95 : 0.3))
      o.ghost = (o.what & W_BAL) ? w.r.range (1, 3) : w.r.range (2, 3);
    if (st ().prop == "C15" && w.r.chance (0.6) && !gaps) {
      o.what = W_ADAPT;
      o.rec = false;
      o.weights = 0;
      o.offsets = o.for_coarsening = false;
      if (o.ghost == 1)
        o.ghost = 3;
    }
    const bool repl = o.what == W_ADAPT && !o.rec;
    t8_forest_t old = do_op (w, o, repl);
    if (any_violation ())
      return;
    if (!snap_sane (w.S)) {
      if (old)
        t8_forest_unref (&old);
      break;
    }
    if (old && repl)
      check_replace (w, old);
    if (old)
      t8_forest_unref (&old);
    if (any_violation ())
      return;
    check_all (w);
    if (w.S.nloc () == 0)
      count ("empty_processes");
    if (w.S.n () > 8 * w.limit)
      break;
  }
  if (any_violation ())
    return;
  if (k < 3)
    sample (w.hist.substr (0, 400));
  count ("cases");
  w_end (w);
  VF_CHECK (held_blocks () == before, "leak", "%d blocks held, %d before", held_blocks (), before);
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  const i64 n = (i64) (opt_int ("n", 40) * st ().scale);
  Rng r (comb (st ().seed, 4712));
  for (i64 k = 0; k < n; ++k) {
    const u64 s = r.next ();
    if (st ().only_case >= 0 && st ().only_case != k)
      continue;
    run_case (k, s);
    if (any_violation ())
      break;
  }
  return finish ();
}
