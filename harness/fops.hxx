/* Forest histories: operations on real forests together with the model of their outcome. */
#ifndef VERIF_FOPS_HXX
#define VERIF_FOPS_HXX
#include "forest.hxx"

namespace vf
{
/* ------------------------------------------------------------------ decisions */
struct Dec
{
  u64 salt = 1;
  double pref = 0.3, pco = 0.5, prem = 0;
  int cap = 4;               /* no refinement at or above this level */
  int cap2 = 99;             /* the same away from the target */
  int tree = -1;             /* refine towards this descendant (deep refinement) */
  u64 target = 0;
  bool coarse_all = false;
  bool force_target = false;
  const std::map<int, u64> *keep_lo = nullptr; /* first local leaf of each local tree: never removed */
  double
  u (const Leaf &x, int k) const
  {
    return (comb (comb (comb (salt, x.t * 64 + x.l), x.id), k) >> 11) * (1.0 / 9007199254740992.0);
  }
  int
  single (const Leaf &x) const
  {
    if (tree == x.t && x.lo <= target && target <= x.hi)
      return x.l < cap || force_target ? 1 : 0;
    if (prem > 0 && u (x, 1) < prem) {
      bool first = false;
      if (keep_lo) {
        auto it = keep_lo->find (x.t);
        first = it == keep_lo->end () || it->second == x.lo;
      }
      if (!first)
        return -2;
    }
    if (tree >= 0 && force_target)
      return 0;
    return x.l < std::min (cap, cap2) && u (x, 2) < pref ? 1 : 0;
  }
  bool
  coarsen (const Leaf &parent) const
  {
    return coarse_all || u (parent, 3) < pco;
  }
};

struct Call
{
  int ltree, lel, fam, num, dec;
  std::vector<Leaf> e;
};
struct World;
/* what the adapt callback of the current operation sees */
struct AdaptCtx
{
  const Dec *d = nullptr;
  t8_forest_t from = nullptr;
  const t8_scheme *s = nullptr;
  int maxl = 0;
  std::vector<Call> log;
  bool bad = false;
  std::string why;
  void *user = nullptr;
};
inline AdaptCtx *&
actx ()
{
  static AdaptCtx *a = nullptr;
  return a;
}
inline int
adapt_cb (t8_forest_t forest, t8_forest_t from, t8_locidx_t lt, const t8_eclass_t ec, t8_locidx_t lel, const t8_scheme_c *s, const int fam,
          const int num, t8_element_t *e[])
{
  AdaptCtx *a = actx ();
  if (from != a->from || t8_forest_get_user_data (forest) != a->user || s != a->s) {
    a->bad = true;
    a->why = "the callback got another source forest, scheme or user data";
  }
  const int gt = (int) t8_forest_global_tree_id (from, lt);
  if (t8_forest_get_tree_class (from, lt) != ec) {
    a->bad = true;
    a->why = "the callback got another class than the tree has";
  }
  Call c { (int) lt, (int) lel, fam, num, 0, {} };
  for (int i = 0; i < num; ++i)
    c.e.push_back (leaf_of (s, ec, e[i], gt, a->maxl));
  int dec = 0;
  if (fam) {
    El p (s, ec);
    s->element_get_parent (ec, e[0], p);
    if (a->d->coarsen (leaf_of (s, ec, p, gt, a->maxl)))
      dec = -1;
  }
  if (dec == 0)
    dec = a->d->single (c.e[0]);
  c.dec = dec;
  a->log.push_back (c);
  return dec;
}

/* model of adapting the leaves of one local tree; appends the new leaves and the expected calls */
struct Modelled
{
  std::vector<Leaf> out;
  std::vector<Call> calls; /* first-level calls only */
  bool removed = false;
};
inline bool
is_family_at (const t8_scheme *s, t8_eclass_t ec, const std::vector<El> &v, size_t i, int ns)
{
  if (s->element_get_level (ec, v[i]) == 0 || i + ns > v.size ())
    return false;
  El p (s, ec), q (s, ec);
  s->element_get_parent (ec, v[i], p);
  for (int k = 0; k < ns; ++k) {
    if (s->element_get_level (ec, v[i + k]) != s->element_get_level (ec, v[i]) || s->element_get_child_id (ec, v[i + k]) != k)
      return false;
    s->element_get_parent (ec, v[i + k], q);
    if (!s->element_is_equal (ec, p, q))
      return false;
  }
  return true;
}
inline void
model_refine (const t8_scheme *s, t8_eclass_t ec, const El &e, int t, int maxl, int flvl, const Dec &d, bool rec, std::vector<El> &out, Modelled &M)
{
  const int n = s->element_get_num_children (ec, e);
  for (int k = 0; k < n; ++k) {
    El c (s, ec);
    s->element_get_child (ec, e, k, c);
    if (!rec) {
      out.push_back (c);
      continue;
    }
    Leaf x = leaf_of (s, ec, c, t, maxl);
    int r = d.single (x);
    if (r == 1 && x.l < flvl)
      model_refine (s, ec, c, t, maxl, flvl, d, rec, out, M);
    else if (r == -2)
      M.removed = true;
    else
      out.push_back (c);
  }
}
inline void
model_tree (const t8_scheme *s, t8_eclass_t ec, int ltree, int t, const std::vector<El> &v, int maxl, int flvl, const Dec &d, bool rec, Modelled &M)
{
  std::vector<El> out;
  size_t i = 0, barrier = 0;
  auto recoarsen = [&] () {
    for (;;) {
      const El &last = out.back ();
      if (s->element_get_level (ec, last) == 0)
        return;
      const int ns = s->element_get_num_siblings (ec, last), ci = s->element_get_child_id (ec, last);
      if (ci == 0 || ci != ns - 1 || out.size () < barrier + ns || !is_family_at (s, ec, out, out.size () - ns, ns))
        return;
      El p (s, ec);
      s->element_get_parent (ec, out[out.size () - ns], p);
      if (!d.coarsen (leaf_of (s, ec, p, t, maxl)))
        return;
      out.resize (out.size () - ns);
      out.push_back (p);
    }
  };
  while (i < v.size ()) {
    const int ns = s->element_get_num_siblings (ec, v[i]);
    const bool fam = is_family_at (s, ec, v, i, ns);
    Call c { ltree, (int) i, fam, fam ? ns : 1, 0, {} };
    for (int k = 0; k < c.num; ++k)
      c.e.push_back (leaf_of (s, ec, v[i + k], t, maxl));
    int dec = 0;
    El p (s, ec);
    if (fam) {
      s->element_get_parent (ec, v[i], p);
      if (d.coarsen (leaf_of (s, ec, p, t, maxl)))
        dec = -1;
    }
    if (dec == 0)
      dec = d.single (c.e[0]);
    c.dec = dec;
    M.calls.push_back (c);
    if (dec == 1 && c.e[0].l < flvl) {
      model_refine (s, ec, v[i], t, maxl, flvl, d, rec, out, M);
      barrier = out.size ();
      ++i;
    }
    else if (dec == -1) {
      out.push_back (p);
      i += ns;
      if (rec)
        recoarsen ();
    }
    else if (dec == -2) {
      M.removed = true;
      ++i;
    }
    else {
      out.push_back (v[i]);
      ++i;
      if (rec)
        recoarsen ();
    }
  }
  for (auto &e : out)
    M.out.push_back (leaf_of (s, ec, e, t, maxl));
}

/* ------------------------------------------------------------------ the world of one history */
struct World
{
  Rng r, mine; /* shared by all ranks / own */
  const t8_scheme *s = nullptr;
  int sid = 0;
  FMesh m;
  AttrKeep keep;
  bool part = false;
  int part_force = -1;
  double prem_bias = 0.12; /* share of adaptations that remove elements */
  sc_MPI_Comm comm;
  int me = 0, P = 1;
  t8_forest_t f = nullptr;
  Snap S; /* of f */
  bool incomplete = false;
  int ghost = 0; /* ghost algorithm of f, 0: none */
  std::string hist;
  i64 limit = 1500; /* soft bound on the number of leaves */
  AdaptCtx a;
  int udata = 0;
  std::function<FMesh (Rng &)> make_mesh; /* instead of fm_random */
  World (u64 seed, sc_MPI_Comm c): r (seed), mine (seed), comm (c)
  {
    PMPI_Comm_rank (c, &me);
    PMPI_Comm_size (c, &P);
    mine = Rng (comb (seed, 77 + me));
  }
};
inline void
w_ctx (World &w, const char *op)
{
  w.hist += std::string (" ") + op;
  std::string h = w.hist.size () > 1500 ? w.hist.substr (0, 400) + " ... " + w.hist.substr (w.hist.size () - 1000) : w.hist;
  ctx ("%s", h.c_str ());
}
inline std::vector<std::vector<El>>
w_local_elements (t8_forest_t f)
{
  std::vector<std::vector<El>> v;
  const t8_scheme *s = t8_forest_get_scheme (f);
  for (t8_locidx_t lt = 0; lt < t8_forest_get_num_local_trees (f); ++lt) {
    v.push_back ({});
    const t8_eclass_t ec = t8_forest_get_tree_class (f, lt);
    for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (f, lt); ++i)
      v.back ().emplace_back (s, ec, t8_forest_get_leaf_element_in_tree (f, lt, i));
  }
  return v;
}
/* uniform start; max_level bounded by the leaf limit */
inline bool
w_start (World &w, int scheme_id, int max_cells, int lvl_req = -1)
{
  w.sid = scheme_id;
  w.s = make_scheme (scheme_id);
  w.m = w.make_mesh ? w.make_mesh (w.r) : fm_random (w.r, scheme_id, max_cells);
  w.part = w.r.chance (0.4);
  if (w.part_force >= 0)
    w.part = w.part_force != 0;
  auto cnt = [&] (int l) {
    i64 n = 0;
    for (int c : w.m.m.cls)
      n += w.s->count_leaves_from_root ((t8_eclass_t) c, l);
    return n;
  };
  int lvl = 0;
  while (cnt (lvl + 1) <= w.limit / 3)
    ++lvl;
  const int want_l = lvl_req >= 0 ? lvl_req : w.r.range (0, 3);
  lvl = std::min (lvl, want_l);
  w.hist = fmt ("P%d scheme %d %s %s trees %d level %d %s:", w.P, scheme_id, w.m.kind.c_str (), w.part ? "partitioned" : "replicated", w.m.n (), lvl,
                w.m.m.str ().substr (0, 300).c_str ());
  w_ctx (w, "start");
  t8_cmesh_t c = fm_commit (w.m, w.r, w.mine, w.keep, w.part, w.comm);
  if (w.part) {
    t8_cmesh_t u;
    t8_cmesh_init (&u);
    t8_cmesh_set_derive (u, c);
    ((t8_scheme_c *) w.s)->ref ();
    t8_cmesh_set_partition_uniform (u, lvl, w.s);
    t8_cmesh_commit (u, w.comm);
    c = u;
  }
  ((t8_scheme_c *) w.s)->ref ();
  w.ghost = 0;
  if (w.r.chance (0.5)) {
    w.ghost = w.r.chance (0.5) ? 3 : 0;
    w.f = t8_forest_new_uniform (c, w.s, lvl, w.ghost != 0, w.comm);
  }
  else {
    t8_forest_init (&w.f);
    t8_forest_set_cmesh (w.f, c, w.comm);
    t8_forest_set_scheme (w.f, w.s);
    t8_forest_set_level (w.f, lvl);
    if (w.r.chance (0.5)) {
      w.ghost = w.r.range (1, 3);
      t8_forest_set_ghost_ext (w.f, 1, T8_GHOST_FACES, w.ghost);
    }
    t8_forest_commit (w.f);
  }
  w.S = snap_take (w.f, &w.m);
  return true;
}
inline void
w_end (World &w)
{
  w.S = Snap ();
  if (w.f)
    t8_forest_unref (&w.f);
  if (w.s)
    ((t8_scheme_c *) w.s)->unref ();
  w.s = nullptr;
}
inline Dec
w_decision (World &w)
{
  Dec d;
  Rng &r = w.r;
  d.salt = r.next ();
  d.pref = r.pick (std::vector<double> { 0, 0.1, 0.3, 0.6, 1 });
  d.pco = r.pick (std::vector<double> { 0, 0.5, 0.9, 1 });
  d.cap = r.range (1, 5);
  if (w.S.n () > w.limit / 4)
    d.pref = std::min (d.pref, 0.05);
  if (w.S.n () > w.limit / 2) {
    d.pref = 0;
    d.pco = 1;
  }
  if (r.chance (0.3) && w.S.n () > 0 && w.S.n () < w.limit / 2) {
    const Leaf &x = w.S.g[r.below (w.S.n ())];
    d.tree = x.t;
    d.target = r.chance (0.5) ? x.lo : x.lo + r.below (x.hi - x.lo + 1);
    d.cap = r.range (2, 8);
    d.cap2 = w.S.n () > w.limit / 20 ? 2 : 3;
  }
  return d;
}
enum { W_ADAPT = 1, W_PART = 2, W_BAL = 4, W_COPY = 8 };
struct OpSpec
{
  int what = 0;
  Dec d;
  bool rec = false;
  bool for_coarsening = false;
  bool profile = false; /* always, not only now and then */
  int weights = 0; /* 0 none, 1 random, 2 with zeros, 3 equal non-dyadic */
  bool offsets = false;
  std::vector<i64> off;
  bool no_repart = false;
  int ghost = 0;
  u64 wsalt = 0;
};
struct OpResult
{
  std::vector<Leaf> expect;      /* global expected leaf sequence */
  std::vector<i64> expect_off;   /* expected offsets per rank where they are determined (else empty) */
  bool have_expect = true;
  bool log_checked = false;
};
inline double
leaf_weight (u64 salt, int kind, const Leaf &x)
{
  const u64 h = comb (comb (comb (salt, x.t), x.l), x.id);
  switch (kind) {
  case 1:
    return (h % 1000 + 1) / 97.0;
  case 2:
    return h % 3 ? 0 : (h % 1000 + 1) / 100.0;
  case 3:
    return 0.1;
  default:
    return h % 20 == 0 ? 1e6 : 1e-3 * (h % 7 + 1);
  }
}
struct WCtx
{
  u64 salt;
  int kind, maxl;
  i64 calls = 0;
};
inline WCtx &
wctx ()
{
  static WCtx c;
  return c;
}
inline double
weight_cb (t8_forest_t f, t8_locidx_t lt, t8_locidx_t i)
{
  WCtx &c = wctx ();
  ++c.calls;
  const t8_eclass_t ec = t8_forest_get_tree_class (f, lt);
  return leaf_weight (c.salt, c.kind,
                      leaf_of (t8_forest_get_scheme (f), ec, t8_forest_get_leaf_element_in_tree (f, lt, i), (int) t8_forest_global_tree_id (f, lt), c.maxl));
}
/* smallest balanced refinement of a list of leaves */
inline Snap
model_balance (const Snap &S0)
{
  Snap S;
  S.s = S0.s, S.m = S0.m, S.maxl = S0.maxl, S.me = S0.me, S.P = S0.P;
  S.g = S0.g;
  for (;;) {
    S.el.clear ();
    S.geo.clear ();
    S.adj.clear ();
    S.tf.clear ();
    snap_adjacency (S);
    std::vector<Leaf> n;
    bool change = false;
    for (i64 i = 0; i < S.n (); ++i) {
      bool ref = false;
      for (auto &a : S.adj[i])
        for (auto &b : a)
          ref = ref || S.g[b.leaf].l > S.g[i].l + 1;
      if (!ref)
        n.push_back (S.g[i]);
      else {
        change = true;
        const t8_eclass_t ec = S.ec (i);
        for (int k = 0; k < S.s->element_get_num_children (ec, S.el[i]); ++k) {
          El c (S.s, ec);
          S.s->element_get_child (ec, S.el[i], k, c);
          n.push_back (leaf_of (S.s, ec, c, S.g[i].t, S.maxl));
          n.back ().owner = S.g[i].owner;
        }
      }
    }
    if (!change)
      return S;
    S.g = n;
  }
}
inline bool
snap_balanced (Snap &S)
{
  snap_adjacency (S);
  for (i64 i = 0; i < S.n (); ++i)
    for (auto &a : S.adj[i])
      for (auto &b : a)
        if (S.g[b.leaf].l > S.g[i].l + 1)
          return false;
  return true;
}
}  // namespace vf
#endif
