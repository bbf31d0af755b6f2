/* Operations of forest histories with their outcome checks (C05..C09). */
#ifndef VERIF_FCHECK_HXX
#define VERIF_FCHECK_HXX

#include "fops.hxx"
#include <t8_forest/t8_forest_profiling.h>

namespace vf
{
/* ---- C05: the forest describes one list of leaves that tiles the mesh ---- */
inline void
check_leaves (World &w)
{
  if (!want ("C05"))
    return;
  t8_forest_t f = w.f;
  Snap &S = w.S;
  const i64 n = S.nloc (), N = S.n ();
  VF_CHECK (t8_forest_get_local_num_leaf_elements (f) == n, "local-count", "%d local leaves reported, the trees hold %lld",
            t8_forest_get_local_num_leaf_elements (f), (long long) n);
  VF_CHECK (t8_forest_get_global_num_leaf_elements (f) == N, "global-count", "%lld global leaves reported, the processes hold %lld",
            (long long) t8_forest_get_global_num_leaf_elements (f), (long long) N);
  VF_CHECK (t8_forest_get_first_local_leaf_element_id (f) == S.off[w.me], "first-id", "first local leaf id %lld instead of %lld",
            (long long) t8_forest_get_first_local_leaf_element_id (f), (long long) S.off[w.me]);
  VF_CHECK (t8_forest_get_num_global_trees (f) == w.m.n (), "global-trees", "%lld global trees instead of %d",
            (long long) t8_forest_get_num_global_trees (f), w.m.n ());
  VF_CHECK (t8_forest_is_committed (f) && !t8_forest_is_initialized (f), "state", "the forest is not committed");
  VF_CHECK (t8_forest_no_overlap (f), "no-overlap", "the forest reports overlapping leaves");
  /* order, disjointness and tiling over all processes */
  for (i64 i = 0; i < N; ++i) {
    const Leaf &x = S.g[i];
    if (x.t < 0 || x.t >= w.m.n () || x.l < 0 || x.l > S.maxl) {
      viol ("leaf-range", "leaf %lld is %s", (long long) i, leaf_str (x).c_str ());
      return;
    }
    const bool newtree = i == 0 || S.g[i - 1].t != x.t;
    if (!newtree && S.g[i - 1].hi >= x.lo) {
      viol ("overlap", "leaf %lld %s and its successor %s overlap or are out of order (owners %d, %d)", (long long) i - 1, leaf_str (S.g[i - 1]).c_str (),
            leaf_str (x).c_str (), S.g[i - 1].owner, x.owner);
      return;
    }
    if (i && S.g[i - 1].t > x.t) {
      viol ("tree-order", "leaf %lld of tree %d follows a leaf of tree %d", (long long) i, x.t, S.g[i - 1].t);
      return;
    }
    if (!w.incomplete) {
      const t8_eclass_t ec = (t8_eclass_t) w.m.m.cls[x.t];
      El root (S.s, ec);
      Leaf rl;
      if (newtree || i + 1 == N || S.g[i + 1].t != x.t) {
        S.s->set_to_root (ec, root);
        rl = leaf_of (S.s, ec, root, x.t, S.maxl);
      }
      if (newtree ? x.lo != rl.lo : x.lo != S.g[i - 1].hi + 1) {
        viol ("gap", "there is a gap in front of leaf %lld %s (owner %d)", (long long) i, leaf_str (x).c_str (), x.owner);
        return;
      }
      if ((i + 1 == N || S.g[i + 1].t != x.t) && x.hi != rl.hi) {
        viol ("gap", "there is a gap behind leaf %lld %s (owner %d)", (long long) i, leaf_str (x).c_str (), x.owner);
        return;
      }
    }
  }
  std::vector<i64> per (w.m.n (), 0);
  for (auto &x : S.g)
    ++per[x.t];
  if (!w.incomplete)
    for (int t = 0; t < w.m.n (); ++t)
      VF_CHECK (per[t] > 0, "empty-tree", "tree %d has no leaves", t);
  snap_elements (S);
  if (!w.incomplete) {
    std::vector<i128> vol (w.m.n (), 0);
    for (i64 i = 0; i < N; ++i) {
      VF_CHECK (S.geo[i].exact, "inexact", "leaf %s has inexact coordinates", leaf_str (S.g[i]).c_str ());
      vol[S.g[i].t] += iabs (signed_measure6 (S.geo[i].shape, S.geo[i].v));
    }
    for (int t = 0; t < w.m.n (); ++t) {
      P3 p[8];
      const int c = w.m.m.cls[t];
      for (int k = 0; k < S_NV[c]; ++k)
        p[k] = root_pt (c, k);
      VF_CHECK (vol[t] == iabs (signed_measure6 (c, p)), "volume", "the leaves of tree %d do not add up to its volume", t);
    }
    count ("tilings");
  }
  /* local trees and lookups */
  const int nt = t8_forest_get_num_local_trees (f);
  const i64 f0 = S.off[w.me];
  const int ft = n ? S.g[f0].t : -1, ltt = n ? S.g[f0 + n - 1].t : -2;
  VF_CHECK (nt == ltt - ft + 1 || (n == 0 && nt == 0), "local-trees", "%d local trees, the local leaves are in trees %d..%d", nt, ft, ltt);
  if (n)
    VF_CHECK (t8_forest_get_first_local_tree_id (f) == ft, "first-tree", "first local tree %lld instead of %d",
              (long long) t8_forest_get_first_local_tree_id (f), ft);
  i64 k = 0;
  for (int lt = 0; lt < nt; ++lt) {
    const i64 gt = t8_forest_global_tree_id (f, lt);
    const int ne = t8_forest_get_tree_num_leaf_elements (f, lt);
    VF_CHECK (gt == ft + lt, "tree-id", "local tree %d is tree %lld instead of %d", lt, (long long) gt, ft + lt);
    if (gt < 0 || gt >= w.m.n ())
      return;
    VF_CHECK ((int) t8_forest_get_tree_class (f, lt) == w.m.m.cls[gt] && (int) t8_forest_get_eclass (f, lt) == w.m.m.cls[gt], "tree-class",
              "tree %lld has class %d", (long long) gt, (int) t8_forest_get_tree_class (f, lt));
    VF_CHECK (t8_forest_get_local_id (f, gt) == lt && t8_forest_tree_is_local (f, lt) && t8_forest_get_local_or_ghost_id (f, gt) == lt, "tree-lookup",
              "tree %lld is found at %d", (long long) gt, t8_forest_get_local_id (f, gt));
    VF_CHECK (t8_forest_get_tree_element_offset (f, lt) == k, "tree-offset", "the offset of tree %lld is %d instead of %lld", (long long) gt,
              t8_forest_get_tree_element_offset (f, lt), (long long) k);
    VF_CHECK (t8_forest_get_tree_leaf_element_count (t8_forest_get_tree (f, lt)) == ne
                && (int) t8_element_array_get_count (t8_forest_tree_get_leaf_elements (f, lt)) == ne,
              "tree-count", "tree %lld: different leaf counts", (long long) gt);
    for (int i = 0; i < ne && k < n; ++i, ++k) {
      t8_locidx_t lt2 = -7;
      const t8_element_t *a = t8_forest_get_leaf_element_in_tree (f, lt, i), *b = t8_forest_get_leaf_element (f, (t8_locidx_t) k, &lt2);
      VF_CHECK (a == b && lt2 == lt, "element-lookup", "leaf %lld: lookup gives tree %d and %s element", (long long) k, lt2, a == b ? "the same" : "another");
      VF_CHECK (S.s->element_is_equal ((t8_eclass_t) w.m.m.cls[gt], a, S.el[f0 + k]), "rebuilt", "leaf %lld differs from the element with its id",
                (long long) k);
    }
    count ("trees");
  }
  VF_CHECK (t8_forest_get_leaf_element (f, (t8_locidx_t) n, NULL) == NULL, "beyond", "a leaf beyond the last one is returned");
  for (int t = 0; t < w.m.n (); ++t)
    if (n == 0 || t < ft || t > ltt)
      VF_CHECK (t8_forest_get_local_id (f, t) < 0, "not-local", "tree %d is reported as local tree %d", t, t8_forest_get_local_id (f, t));
  VF_CHECK (t8_forest_is_equal (f, f), "self-equal", "the forest differs from itself");
  count ("leaves", n);
  count ("forests");
  seen ("forests", S.hash (true));
}

/* ---- execute one operation and compare with the model ---- */
inline void
compare_seq (World &w, const char *prop, const std::vector<Leaf> &expect, const char *what)
{
  if (!want (prop))
    return;
  const Snap &S = w.S;
  for (i64 i = 0; i < std::max (S.n (), (i64) expect.size ()); ++i) {
    const bool a = i < S.n (), b = i < (i64) expect.size ();
    if (!a || !b || !S.g[i].same (expect[i])) {
      viol ((std::string (what) + "-sequence").c_str (), "global leaf %lld of %lld is %s, expected %s (of %zu)", (long long) i, (long long) S.n (),
            a ? leaf_str (S.g[i]).c_str () : "missing", b ? leaf_str (expect[i]).c_str () : "none", expect.size ());
      return;
    }
  }
  count ("sequences");
}
inline void
compare_owner (World &w, const char *prop, const std::vector<Leaf> &expect, const char *what)
{
  if (!want (prop) || (i64) expect.size () != w.S.n ())
    return;
  for (i64 i = 0; i < w.S.n (); ++i)
    if (w.S.g[i].owner != expect[i].owner) {
      viol ((std::string (what) + "-owner").c_str (), "leaf %lld %s is on process %d instead of %d", (long long) i, leaf_str (w.S.g[i]).c_str (),
            w.S.g[i].owner, expect[i].owner);
      return;
    }
}
/* all siblings of the leaf at i are consecutive leaves; first index and number of siblings */
inline bool
family_of (const Snap &S, i64 i, i64 &first, int &ns)
{
  const t8_eclass_t ec = S.ec (i);
  if (S.g[i].l == 0)
    return false;
  ns = S.s->element_get_num_siblings (ec, S.el[i]);
  first = i - S.s->element_get_child_id (ec, S.el[i]);
  if (first < 0 || first + ns > S.n ())
    return false;
  El p (S.s, ec), q (S.s, ec);
  S.s->element_get_parent (ec, S.el[i], p);
  for (i64 k = first; k < first + ns; ++k) {
    if (S.g[k].t != S.g[i].t || S.g[k].l != S.g[i].l)
      return false;
    S.s->element_get_parent (ec, S.el[k], q);
    if (!S.s->element_is_equal (ec, p, q))
      return false;
  }
  return true;
}
inline void
check_pieces (Snap &S, const OpSpec &o, const std::vector<Leaf> &seq)
{
  if (!want ("C07"))
    return;
  const i64 N = S.n ();
  const int P = S.P;
  const int slack = o.for_coarsening ? 10 : 0;
  if (o.offsets) {
    for (int p = 0; p < P; ++p)
      VF_CHECK (llabs (S.off[p] - o.off[p]) <= slack, "given-offset", "process %d starts at leaf %lld instead of the given %lld", p, (long long) S.off[p],
                (long long) o.off[p]);
  }
  else if (o.weights && N > 0) {
    std::vector<long double> pre (1, 0);
    for (auto &x : seq)
      pre.push_back (pre.back () + leaf_weight (o.wsalt, o.weights, x));
    const long double W = pre.back ();
    if (W > 0 && !o.for_coarsening)
      for (int p = 1; p < P; ++p) {
        /* the piece of the processes before p: as close to its share as one element allows */
        const long double T = W * p / P, tol = 1e-9L * W;
        const i64 k = S.off[p];
        i64 a = k, b = k;
        while (a > 0 && pre[a] == pre[k]) /* elements of weight zero do not count */
          --a;
        while (b < N && pre[b] == pre[k])
          ++b;
        VF_CHECK (k == 0 || k == N || (pre[a] <= T + tol && pre[b] >= T - tol) || (pre[a] <= T + tol && pre[k] >= T - tol), "weight-share",
                  "process %d starts at leaf %lld: the weight in front is %.17Lg, its share %.17Lg of %.17Lg", p, (long long) k, pre[k], T, W);
        VF_CHECK (!(k == 0 && pre[b] < T - tol) && !(k == N && pre[a] > T + tol), "weight-share-end",
                  "process %d starts at leaf %lld of %lld: the weight in front is %.17Lg, its share %.17Lg of %.17Lg", p, (long long) k, (long long) N, pre[k],
                  T, W);
      }
  }
  else {
    i64 mn = N, mx = 0;
    for (int p = 0; p < P; ++p) {
      const i64 c = S.off[p + 1] - S.off[p];
      mn = std::min (mn, c);
      mx = std::max (mx, c);
      VF_CHECK (llabs (S.off[p] - N * p / P) <= 1 + slack, "piece", "process %d starts at leaf %lld of %lld", p, (long long) S.off[p], (long long) N);
    }
    VF_CHECK (mx - mn <= 1 || o.for_coarsening, "even", "the pieces have between %lld and %lld leaves", (long long) mn, (long long) mx);
  }
  if (o.for_coarsening) {
    snap_elements (S);
    for (int p = 1; p < P; ++p) {
      const i64 k = S.off[p];
      if (k <= 0 || k >= N)
        continue;
      i64 first;
      int ns;
      if (family_of (S, k, first, ns) && first < k) {
        viol ("family-split", "process %d starts at leaf %lld %s inside the complete family %lld..%lld", p, (long long) k, leaf_str (S.g[k]).c_str (),
              (long long) first, (long long) first + ns - 1);
        return;
      }
      count ("coarsening_boundaries");
    }
  }
  count ("partitions");
  u64 h = S.hash (true);
  seen ("partitions", h);
}

inline std::vector<i64>
random_offsets (Rng &r, i64 N, int P)
{
  std::vector<i64> o (P + 1, 0);
  for (int p = 1; p < P; ++p)
    o[p] = r.chance (0.2) ? 0 : r.chance (0.2) ? N : (i64) r.below (N + 1);
  std::sort (o.begin (), o.end ());
  o[0] = 0;
  o[P] = N;
  return o;
}

/* returns the previous forest when keep_old, else null */
inline t8_forest_t
do_op (World &w, OpSpec &o, bool keep_old)
{
  t8_forest_t old = w.f, f2;
  const Snap S0 = w.S;
  std::string name;
  if (o.ghost == 1 && !(o.what & W_BAL))
    o.ghost = 2; /* the first algorithm is for balanced forests only */
  AdaptCtx &a = w.a;
  a = AdaptCtx ();
  std::map<int, u64> keep_lo;
  if (o.what & W_ADAPT) {
    name += fmt ("adapt%s(ref %.2f co %.2f rem %.2f cap %d tree %d target %llu%s salt %llx)", o.rec ? "-recursive" : "", o.d.pref, o.d.pco, o.d.prem, o.d.cap,
                 o.d.tree, (unsigned long long) o.d.target, o.d.force_target ? " forced" : "", (unsigned long long) o.d.salt);
    for (i64 i = S0.off[w.me]; i < S0.off[w.me + 1]; ++i)
      if (!keep_lo.count (S0.g[i].t))
        keep_lo[S0.g[i].t] = S0.g[i].lo;
    o.d.keep_lo = &keep_lo;
    a.d = &o.d;
    a.from = old;
    a.s = w.s;
    a.maxl = S0.maxl;
    a.user = &w.udata;
    actx () = &a;
  }
  if (o.what & W_PART)
    name += fmt ("partition%s%s%s", o.for_coarsening ? "-for-coarsening" : "", o.weights ? fmt ("-weights%d", o.weights).c_str () : "", o.offsets ? "-offsets" : "");
  if (o.what & W_BAL)
    name += o.no_repart ? "balance-fixed" : "balance";
  if (o.what == W_COPY)
    name += "copy";
  if (o.ghost)
    name += fmt ("+ghost%d", o.ghost);
  w_ctx (w, name.c_str ());

  /* model */
  std::vector<Leaf> seq = S0.g;
  std::vector<Leaf> mine_new;
  Modelled M;
  const bool was_incomplete = w.incomplete;
  if ((o.what & W_ADAPT) && (!was_incomplete || o.rec)) {
    std::vector<std::vector<El>> els = w_local_elements (old);
    for (size_t lt = 0; lt < els.size (); ++lt) {
      const int gt = (int) t8_forest_global_tree_id (old, (t8_locidx_t) lt);
      model_tree (w.s, (t8_eclass_t) w.m.m.cls[gt], (int) lt, gt, els[lt], S0.maxl, S0.maxl, o.d, o.rec, M);
    }
    for (auto &x : M.out)
      x.owner = w.me;
    mine_new = M.out;
  }

  t8_forest_init (&f2);
  if (keep_old)
    t8_forest_ref (old);
  bool have_from = false;
  auto from = [&] () -> t8_forest_t {
    if (have_from)
      return NULL;
    have_from = true;
    return old;
  };
  if (o.what & W_ADAPT) {
    t8_forest_set_user_data (f2, &w.udata);
    t8_forest_set_adapt (f2, from (), adapt_cb, o.rec);
  }
  if (o.what & W_PART) {
    t8_forest_set_partition (f2, from (), o.for_coarsening);
    if (o.weights) {
      wctx () = WCtx { o.wsalt, o.weights, S0.maxl, 0 };
      t8_forest_set_partition_weight_function (f2, weight_cb);
    }
    if (o.offsets)
      t8_forest_set_partition_offset (f2, o.off[w.me]);
  }
  if (o.what & W_BAL)
    t8_forest_set_balance (f2, from (), o.no_repart);
  if (o.what == W_COPY)
    t8_forest_set_copy (f2, from ());
  if (o.ghost)
    t8_forest_set_ghost_ext (f2, 1, T8_GHOST_FACES, o.ghost);
  Rng pr (comb (hash_str (name), S0.g.size ())); /* the same on all processes; the shared stream is left alone */
  bool prof = pr.chance (0.2) || o.profile;
  if (prof) {
    t8_forest_set_profiling (f2, 1);
    if (!o.profile && pr.chance (0.25)) {
      t8_forest_set_profiling (f2, 0);
      prof = false;
    }
  }
  t8_forest_commit (f2);
  if (prof) {
    count ("profiled");
    if (pr.chance (0.3))
      t8_forest_print_profile (f2);
  }
  w.f = f2;
  w.ghost = o.ghost;
  actx () = nullptr;

  /* outcome of the adaptation */
  if (o.what & W_ADAPT) {
    VP ("C06", !a.bad, "callback-args", "%s", a.why.c_str ());
    if (was_incomplete && !o.rec) {
      /* every call must follow the leaves; the outcome is what the answers say */
      M = Modelled ();
      std::map<int, std::vector<Leaf>> lv;
      for (i64 i = S0.off[w.me]; i < S0.off[w.me + 1]; ++i)
        lv[S0.g[i].t].push_back (S0.g[i]);
      std::map<int, size_t> next;
      for (auto &c : a.log) {
        const int gt = c.e.empty () ? -1 : c.e[0].t;
        auto &L = lv[gt];
        size_t &k = next[gt];
        bool ok = c.num > 0 && (size_t) c.lel == k && k + c.num <= L.size ();
        for (int i = 0; ok && i < c.num; ++i)
          ok = L[k + i].same (c.e[i]);
        if (!ok) {
          VP ("C06", false, "incomplete-call", "call for local element %d with %d elements does not follow the leaves", c.lel, c.num);
          break;
        }
        const t8_eclass_t ec = (t8_eclass_t) w.m.m.cls[gt];
        El e (w.s, ec), p (w.s, ec), q (w.s, ec);
        w.s->element_set_linear_id (ec, e, c.e[0].l, c.e[0].id);
        if (c.fam) {
          /* siblings, and no other leaf of any process below their parent */
          w.s->element_get_parent (ec, e, p);
          Leaf pl = leaf_of (w.s, ec, p, gt, S0.maxl);
          i64 in = 0;
          for (auto &x : S0.g)
            in += x.t == gt && x.lo >= pl.lo && x.hi <= pl.hi;
          bool sib = true;
          for (auto &x : c.e)
            sib = sib && x.l == pl.l + 1 && x.lo >= pl.lo && x.hi <= pl.hi;
          VP ("C06", sib && in == c.num, "incomplete-family", "%d elements offered as family of %s, but %lld leaves are below it", c.num,
              leaf_str (pl).c_str (), (long long) in);
          count ("incomplete_families");
        }
        if (c.dec == -1) {
          M.out.push_back (leaf_of (w.s, ec, p, gt, S0.maxl));
          k += c.num;
        }
        else {
          ++k;
          if (c.dec == 1 && c.e[0].l < S0.maxl)
            for (int i = 0; i < w.s->element_get_num_children (ec, e); ++i) {
              w.s->element_get_child (ec, e, i, q);
              M.out.push_back (leaf_of (w.s, ec, q, gt, S0.maxl));
            }
          else if (c.dec != -2)
            M.out.push_back (c.e[0]);
        }
      }
      for (auto &kv : lv)
        VP ("C06", next[kv.first] == kv.second.size (), "incomplete-calls", "tree %d: %zu of %zu leaves were offered", kv.first, next[kv.first],
            kv.second.size ());
      for (auto &x : M.out)
        x.owner = w.me;
    }
    else if (want ("C06") && !was_incomplete) {
      size_t j = 0;
      auto eq = [&] (const Call &x, const Call &y) {
        if (x.ltree != y.ltree || x.lel != y.lel || x.fam != y.fam || x.num != y.num)
          return false;
        for (int i = 0; i < x.num; ++i)
          if (!x.e[i].same (y.e[i]))
            return false;
        return true;
      };
      if (!o.rec) {
        for (size_t i = 0; i < std::max (M.calls.size (), a.log.size ()); ++i)
          if (i >= M.calls.size () || i >= a.log.size () || !eq (M.calls[i], a.log[i])) {
            const Call *x = i < a.log.size () ? &a.log[i] : nullptr, *y = i < M.calls.size () ? &M.calls[i] : nullptr;
            viol ("calls", "callback call %zu: %s, expected %s", i,
                  x ? fmt ("tree %d element %d family %d num %d %s", x->ltree, x->lel, x->fam, x->num, leaf_str (x->e[0]).c_str ()).c_str () : "missing",
                  y ? fmt ("tree %d element %d family %d num %d %s", y->ltree, y->lel, y->fam, y->num, leaf_str (y->e[0]).c_str ()).c_str () : "none");
            break;
          }
      }
      else {
        for (size_t i = 0; i < a.log.size () && j < M.calls.size (); ++i)
          if (eq (M.calls[j], a.log[i]))
            ++j;
        VF_CHECK (j == M.calls.size (), "calls-recursive", "leaf call %zu of %zu is missing from the trace of %zu calls", j, M.calls.size (), a.log.size ());
      }
      count ("callback_calls", a.log.size ());
    }
    /* sequence after adaptation */
    std::vector<i64> off;
    gather_leaves (M.out, seq, off, w.comm);
    int rm = M.removed;
    for (auto &c : a.log)
      rm |= c.dec == -2;
    int any = 0;
    PMPI_Allreduce (&rm, &any, 1, MPI_INT, MPI_MAX, w.comm);
    w.incomplete = w.incomplete || any;
    if (want ("C06"))
      for (auto &c : a.log)
        count (c.dec == 1 ? "refined" : c.dec == -1 ? "coarsened" : c.dec == -2 ? "removed" : "kept");
  }
  w.S = snap_take (w.f, &w.m);
  if (prof) {
    int sent = -1, rounds = -1;
    t8_locidx_t gs = -1;
    VP ("C07", t8_forest_profile_get_partition_time (f2, &sent) >= 0 && sent >= 0, "profile-partition", "sent to %d processes", sent);
    if (o.what == W_PART && w.S.n () == S0.n ()) {
      int exp = 0;
      for (int q = 0; q < w.P; ++q)
        exp += q != w.me && std::max (S0.off[w.me], w.S.off[q]) < std::min (S0.off[w.me + 1], w.S.off[q + 1]);
      VP ("C07", sent == exp, "profile-partition", "the profile reports leaves sent to %d processes, %d others got leaves of this one", sent, exp);
      count ("profile_partition");
    }
    const double bt = t8_forest_profile_get_balance_time (f2, &rounds);
    VP ("C09", bt >= 0 && rounds >= ((o.what & W_BAL) && !(o.what & ~(W_BAL | W_ADAPT | W_PART)) ? 1 : 0), "profile-balance", "%d rounds of balance", rounds);
    VP ("C10", t8_forest_profile_get_ghost_time (f2, &gs) >= 0 && gs >= 0, "profile-ghost", "%d ghosts sent", (int) gs);
    VP ("C06", t8_forest_profile_get_adapt_time (f2) >= 0, "profile-adapt", "negative time");
    if (want ("C10") && o.ghost) {
      i64 loc[2] = { gs, t8_forest_get_num_ghosts (f2) }, sum[2];
      MPI_Allreduce (loc, sum, 2, MPI_LONG_LONG, MPI_SUM, st ().comm);
      VP ("C10", sum[0] == sum[1], "profile-ghost", "the profiles report %lld ghosts sent, %lld ghosts exist", (long long) sum[0], (long long) sum[1]);
      count ("profile_ghosts");
    }
  }
  const std::vector<Leaf> before_balance = seq;
  if (o.what & W_BAL) {
    Snap X;
    X.s = S0.s, X.m = S0.m, X.maxl = S0.maxl, X.me = S0.me, X.P = S0.P;
    X.g = seq;
    if (snap_sane (X) && (want ("C09") || want ("C06") || want ("C07"))) {
      Snap B = model_balance (X);
      count ("balance_added", B.g.size () - seq.size ());
      if (B.g.size () > seq.size ())
        count ("balance_changed");
      seq = B.g;
    }
    else
      seq = w.S.g;
  }
  if (o.what & W_ADAPT)
    compare_seq (w, "C06", seq, "adapt");
  if (o.what & W_PART)
    compare_seq (w, "C07", seq, "partition");
  if (o.what & W_BAL)
    compare_seq (w, "C09", seq, "balance");
  if (o.what == W_COPY)
    compare_seq (w, "C05", seq, "copy");
  if (o.what == W_ADAPT)
    compare_owner (w, "C06", seq, "adapt");
  if (o.what == W_COPY)
    compare_owner (w, "C05", seq, "copy");
  if (o.what == W_BAL && o.no_repart)
    compare_owner (w, "C09", seq, "balance");
  if (o.what == (W_BAL | W_ADAPT) && o.no_repart)
    compare_owner (w, "C09", seq, "adapt-balance");
  if ((o.what & W_PART) && !(o.what & W_BAL))
    check_pieces (w.S, o, seq);
  else if ((o.what & W_PART) && o.no_repart && want ("C07") && snap_sane (w.S)) {
    /* every leaf before balance is covered by leaves of one process: the partition that was balanced */
    Snap X;
    X.s = S0.s, X.m = S0.m, X.maxl = S0.maxl, X.me = S0.me, X.P = S0.P;
    X.g = before_balance;
    X.off.assign (X.P + 1, X.n ());
    for (i64 i = X.n () - 1; i >= 0; --i) {
      const i64 a = snap_at (w.S, X.g[i].t, X.g[i].lo), b = snap_at (w.S, X.g[i].t, X.g[i].hi);
      VF_CHECK (a >= 0 && b >= 0 && w.S.g[a].owner == w.S.g[b].owner, "partition-balance-owner", "leaf %s is split over processes by balance",
                leaf_str (X.g[i]).c_str ());
      if (a < 0 || b < 0)
        break;
      X.g[i].owner = w.S.g[a].owner;
      for (int p = 0; p <= X.g[i].owner; ++p)
        X.off[p] = i;
    }
    check_pieces (X, o, before_balance);
    count ("partition_balance");
  }
  if ((o.what & W_BAL) && want ("C09") && !w.incomplete)
    VF_CHECK (snap_sane (w.S) && snap_balanced (w.S), "not-balanced", "two face neighbors differ by more than one level");
  if (keep_old && want ("C05") && o.what == W_COPY)
    VF_CHECK (t8_forest_is_equal (old, w.f), "copy-equal", "a copied forest is not equal to its source");
  count ("operations");
  if (o.what & W_ADAPT)
    count ("op_adapt");
  if (o.what & W_PART)
    count ("op_partition");
  if (o.what & W_BAL)
    count ("op_balance");
  return keep_old ? old : nullptr;
}

/* a random operation that is allowed in the current state */
inline OpSpec
random_op (World &w)
{
  Rng &r = w.r;
  OpSpec o;
  const double k = r.unit ();
  if (k < 0.4)
    o.what = W_ADAPT;
  else if (k < 0.65)
    o.what = W_PART;
  else if (k < 0.8)
    o.what = W_BAL;
  else if (k < 0.86)
    o.what = W_ADAPT | W_PART;
  else if (k < 0.9)
    o.what = W_ADAPT | W_BAL;
  else if (k < 0.95)
    o.what = W_ADAPT | W_PART | W_BAL;
  else if (k < 0.97)
    o.what = W_PART | W_BAL;
  else
    o.what = W_COPY;
  o.d = w_decision (w);
  if (o.what & W_ADAPT) {
    o.rec = r.chance (0.35);
    if (r.chance (w.prem_bias) && !(o.what & W_BAL))
      o.d.prem = r.pick (std::vector<double> { 0.05, 0.3 });
    if (o.rec && r.chance (0.2) && w.S.n () > 0 && !(o.what & W_BAL)) {
      /* down to the maximum level and one step further */
      const Leaf &x = w.S.g[r.below (w.S.n ())];
      o.d.tree = x.t;
      o.d.target = r.chance (0.5) ? x.lo : x.lo + r.below (x.hi - x.lo + 1);
      o.d.force_target = true;
    }
    if (o.rec && o.d.pref >= 0.6 && o.d.tree < 0)
      o.d.cap = std::min (o.d.cap, w.S.n () > w.limit / 20 ? 2 : 3);
  }
  if (w.incomplete || o.d.prem > 0) {
    o.what &= ~W_BAL;
    if (o.what == 0)
      o.what = W_PART;
    if (o.rec) {
      o.d.pco = 0;
      o.d.coarse_all = false;
    }
  }
  if (o.what & W_PART) {
    o.for_coarsening = r.chance (0.25);
    o.wsalt = r.next ();
    if (r.chance (0.4))
      o.weights = r.range (1, 4);
    else if (r.chance (0.3) && o.what == W_PART) {
      o.offsets = true;
      o.off = random_offsets (r, w.S.n (), w.P);
    }
  }
  o.no_repart = r.chance (0.5);
  if (!w.incomplete && o.d.prem == 0 && r.chance (0.4))
    o.ghost = (o.what & W_BAL) ? r.range (1, 3) : r.range (2, 3);
  return o;
}
}  // namespace vf
#endif
