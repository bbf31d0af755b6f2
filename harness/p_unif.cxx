/* C21: how a uniform refinement is distributed over the processes.
 * Oracle: 128-bit integer arithmetic on the refinement counts of all trees. */
#include "cmodel.hxx"
#include <t8_schemes/t8_default/t8_default.hxx>
#include <t8_schemes/t8_standalone/t8_standalone.hxx>
#include <t8_schemes/t8_scheme.hxx>
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_forest/t8_forest_general.h>
#include <t8_forest/t8_forest_private.h>

using namespace vf;
typedef __int128 i128;

static void
run_arith (i64 n)
{
  Rng r (comb (st ().seed, 11 + st ().rank));
  for (i64 k = 0; k < n; ++k) {
    u64 N;
    switch (r.range (0, 4)) {
    case 0:
      N = r.below (50);
      break;
    case 1:
      N = r.next () >> r.range (1, 62);
      break;
    case 2: /* near powers of two */
      N = (1ULL << r.range (0, 62)) + (u64) r.range (-2, 2);
      N &= ~(1ULL << 63);
      break;
    case 3:
      N = 0x7fffffffffffffffULL - r.below (100);
      break;
    default:
      N = (1ULL << (3 * r.range (0, 19))) * (u64) r.range (1, 9);
      break;
    }
    u64 P = r.chance (0.3) ? (u64) r.range (1, 9) : r.chance (0.5) ? 1 + (r.next () & 0xfffff) : 1 + (r.next () & 0x7ffffffe);
    if (r.chance (0.2) && N > 1 && N < 0x7fffffff)
      P = std::max<u64> (1, N + (u64) r.range (-1, 1));
    std::vector<u64> ps { 0, 1, P - 1, P, P / 2, r.below (P + 1), r.below (P + 1) };
    ctx ("arith %lld: elements %llu processes %llu", (long long) k, (unsigned long long) N, (unsigned long long) P);
    for (u64 p : ps) {
      if (p > P)
        continue;
      u64 got = t8_cmesh_get_first_element_of_process ((uint32_t) p, (uint32_t) P, N);
      u64 want = (u64) ((unsigned __int128) N * p / P);
      VF_CHECK (got == want, "first-element", "first element of process %llu is %llu instead of floor(N p / P) = %llu", (unsigned long long) p,
                (unsigned long long) got, (unsigned long long) want);
      count ("arith");
      seen ("arith", comb (comb (N, P), p));
    }
  }
}

struct Bounds
{
  t8_gloidx_t first = -7, begin = -7, last = -7, end = -7;
  int8_t shared = 9;
};

static void
check_bounds (const Bounds &b, bool have_children, const std::vector<i64> &off, int p, int P, const char *key)
{
  const i64 N = off.back ();
  const i64 e0 = (i64) ((i128) N * p / P), e1 = (i64) ((i128) N * (p + 1) / P);
  auto K = [&] (const char *s) { return std::string (key) + s; };
  count ("bounds");
  if (e0 == e1) {
    count ("empty_ranks");
    VF_CHECK (b.first > b.last || (have_children && b.first == b.last && b.begin >= b.end), K ("-empty").c_str (),
              "process %d of %d has no elements of %lld but trees %lld..%lld, children %lld..%lld", p, P, (long long) N, (long long) b.first,
              (long long) b.last, (long long) b.begin, (long long) b.end);
    VF_CHECK (b.shared == 0, K ("-empty-shared").c_str (), "process %d of %d is empty but has a shared first tree", p, P);
    return;
  }
  const i64 t0 = std::upper_bound (off.begin (), off.end (), e0) - off.begin () - 1;
  const i64 t1 = std::upper_bound (off.begin (), off.end (), e1 - 1) - off.begin () - 1;
  VF_CHECK (b.first == t0, K ("-first").c_str (), "process %d of %d: first tree %lld instead of %lld (elements %lld..%lld)", p, P, (long long) b.first,
            (long long) t0, (long long) e0, (long long) e1);
  VF_CHECK (b.last == t1, K ("-last").c_str (), "process %d of %d: last tree %lld instead of %lld (elements %lld..%lld)", p, P, (long long) b.last,
            (long long) t1, (long long) e0, (long long) e1);
  if (have_children) {
    VF_CHECK (b.begin == e0 - off[t0], K ("-begin").c_str (), "process %d of %d: first child %lld instead of %lld", p, P, (long long) b.begin,
              (long long) (e0 - off[t0]));
    VF_CHECK (b.end == e1 - off[t1], K ("-end").c_str (), "process %d of %d: end child %lld instead of %lld", p, P, (long long) b.end,
              (long long) (e1 - off[t1]));
  }
  VF_CHECK (b.shared == (e0 > off[t0]), K ("-shared").c_str (), "process %d of %d: first_tree_shared %d", p, P, b.shared);
}

static void
check_uniform_forest (t8_cmesh_t c, const t8_scheme *scheme, int lvl, const CModel &m, const std::vector<i64> &off, const char *key)
{
  const int me = st ().rank, P = st ().size;
  const i64 N = off.back ();
  const i64 e0 = (i64) ((i128) N * me / P), e1 = (i64) ((i128) N * (me + 1) / P);
  auto K = [&] (const char *s) { return std::string (key) + s; };
  t8_cmesh_ref (c);
  ((t8_scheme_c *) scheme)->ref ();
  t8_forest_t f;
  t8_forest_init (&f);
  t8_forest_set_cmesh (f, c, st ().comm);
  t8_forest_set_scheme (f, scheme);
  t8_forest_set_level (f, lvl);
  t8_forest_commit (f);
  count ("forests");
  VF_CHECK (t8_forest_get_global_num_leaf_elements (f) == N, K ("-global").c_str (), "%lld elements instead of %lld",
            (long long) t8_forest_get_global_num_leaf_elements (f), (long long) N);
  VF_CHECK (t8_forest_get_local_num_leaf_elements (f) == e1 - e0, K ("-local").c_str (), "%d local elements instead of %lld",
            t8_forest_get_local_num_leaf_elements (f), (long long) (e1 - e0));
  i64 e = e0;
  bool bad = false;
  for (t8_locidx_t lt = 0; lt < t8_forest_get_num_local_trees (f) && !bad; ++lt) {
    const i64 gt = t8_forest_global_tree_id (f, lt);
    if (gt < 0 || gt >= m.n ()) {
      viol (K ("-tree").c_str (), "local tree %d has global id %lld", lt, (long long) gt);
      break;
    }
    const t8_eclass_t ec = t8_forest_get_tree_class (f, lt);
    VF_CHECK ((int) ec == m.cls[gt], K ("-class").c_str (), "tree %lld has class %d", (long long) gt, (int) ec);
    for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (f, lt); ++i, ++e) {
      const t8_element_t *el = t8_forest_get_leaf_element_in_tree (f, lt, i);
      const bool ok = scheme->element_get_level (ec, el) == lvl && off[gt] <= e && e < off[gt + 1]
                      && (i64) scheme->element_get_linear_id (ec, el, lvl) == e - off[gt];
      if (!ok) {
        viol (K ("-element").c_str (), "element %d of tree %lld: level %d id %lld instead of global element %lld", i, (long long) gt,
              scheme->element_get_level (ec, el), (long long) scheme->element_get_linear_id (ec, el, lvl), (long long) e);
        bad = true;
        break;
      }
      count ("uniform_elements");
    }
  }
  VF_CHECK (bad || e == e1, K ("-sequence").c_str (), "the local elements end at %lld instead of %lld", (long long) e, (long long) e1);
  t8_forest_unref (&f);
}

static void
run_bounds (i64 nc)
{
  const int me = st ().rank, P = st ().size;
  Rng shape (comb (st ().seed, 301));
  std::vector<const t8_scheme *> schemes { t8_scheme_new_default (), t8_scheme_new_standalone () };
  for (i64 k = 0; k < nc; ++k) {
    Rng r (comb (shape.next (), k));
    if (st ().only_case >= 0 && k != st ().only_case)
      continue;
    Rng mine (comb (r.next (), me + 1));
    CModel m = cm_random (r, r.chance (0.15) ? 60 : r.chance (0.6) ? P + 2 : 12, { 0 });
    for (auto &a : m.attr)
      a.clear ();
    const int which = r.chance (0.75) ? 0 : 1;
    if (which == 1)
      for (int &c : m.cls)
        if (c == 7 || c == 6)
          c = c == 6 ? 6 : 7;
    const t8_scheme *sc = schemes[which];
    /* how deep the counts fit */
    int maxl = 40;
    for (int c : m.cls)
      maxl = std::min (maxl, sc->get_maxlevel ((t8_eclass_t) c));
    auto total = [&] (int l) {
      i128 s = 0;
      for (int c : m.cls) {
        long double e = powl (CM_DIM[c] == 3 ? (c == 7 ? 10 : 8) : CM_DIM[c] == 2 ? 4 : 2, l);
        s += e > 4e18L ? (i128) 8e18L : (i128) e;
      }
      return s;
    };
    while (maxl > 0 && total (maxl) > (i128) 4e18L)
      --maxl;
    const int lvl = r.chance (0.6) ? r.range (0, std::min (3, maxl)) : r.range (0, maxl);
    std::vector<i64> off (1, 0);
    bool equal = true;
    for (int c : m.cls) {
      off.push_back (off.back () + sc->count_leaves_from_root ((t8_eclass_t) c, lvl));
      equal = equal && off.back () - off[off.size () - 2] == off[1];
    }
    const i64 N = off.back ();
    AttrKeep keep;
    const bool part = r.chance (0.5);
    Part p = part_random (r, m.n (), P);
    std::string desc = fmt ("case %lld scheme %d level %d trees %d elements %lld %s ", (long long) k, which, lvl, m.n (), (long long) N,
                            part ? part_str (p).c_str () : "replicated")
                       + m.str ();
    ctx ("%s", desc.c_str ());
    if (k < 3)
      sample (desc.substr (0, 300));
    u64 h = comb (comb (m.topo_hash (), lvl * 2 + which), P);
    if (part)
      for (i64 o : p.off)
        h = comb (h, o);
    seen ("distributions", h);
    count ("cases");
    const int before = held_blocks ();
    t8_cmesh_t c;
    t8_cmesh_init (&c);
    t8_cmesh_set_dimension (c, m.dim);
    if (part) {
      const int f = p.first[me], l = p.last[me];
      t8_cmesh_set_partition_range (c, 3, l < f ? f : (p.shared[me] ? -(t8_gloidx_t) f - 1 : f), l);
    }
    auto all = [] (int) { return true; };
    cm_specify (c, m, mine, keep, all, all, false);
    t8_cmesh_commit (c, st ().comm);
    Bounds b;
    bool ch = r.chance (0.7);
    t8_cmesh_uniform_bounds_for_irregular_refinement (c, lvl, sc, &b.first, ch ? &b.begin : NULL, &b.last, ch ? &b.end : NULL, &b.shared, st ().comm);
    check_bounds (b, ch, off, me, P, part ? "partitioned" : "replicated");
    if (equal) {
      Bounds q;
      t8_cmesh_uniform_bounds_equal_element_count (c, lvl, sc, &q.first, ch ? &q.begin : NULL, &q.last, ch ? &q.end : NULL, &q.shared);
      check_bounds (q, ch, off, me, P, "equal");
      /* the same for other, virtual process counts: only the rank and size stored in the mesh matter */
      const int r0 = c->mpirank, s0 = c->mpisize;
      for (int i = 0; i < 6; ++i) {
        const int VP = r.chance (0.5) ? r.range (1, 40) : r.range (1, 1 << r.range (1, 24));
        const int vr = r.range (0, VP - 1);
        c->mpirank = vr;
        c->mpisize = VP;
        Bounds v;
        t8_cmesh_uniform_bounds_equal_element_count (c, lvl, sc, &v.first, &v.begin, &v.last, &v.end, &v.shared);
        check_bounds (v, true, off, vr, VP, "equal-virtual");
      }
      c->mpirank = r0;
      c->mpisize = s0;
    }
    {
      /* smallest level without empty processes, for any number of processes */
      const int s0 = c->mpisize;
      for (int i = 0; i < 4; ++i) {
        const int VP = i == 0 ? s0 : r.chance (0.5) ? r.range (1, 200) : r.range (1, 1 << r.range (1, 30));
        int e = 0;
        for (;; ++e) {
          __int128 sum = 0;
          for (int cc : m.cls) {
            __int128 x = 1, y = 1;
            for (int j = 0; j < e; ++j) {
              x *= cc == 1 ? 2 : cc <= 3 ? 4 : 8;
              y *= 6;
            }
            sum += cc == 7 ? 2 * x - y : x;
          }
          if (sum >= VP)
            break;
        }
        c->mpisize = VP;
        const int got = t8_forest_min_nonempty_level (c, schemes[0]);
        c->mpisize = s0;
        VF_CHECK (got == e, "min-level", "%d processes: level %d instead of %d", VP, got, e);
        count ("min_levels");
      }
    }
    if (N <= 20000 && !any_violation ()) {
      bool std1 = which == 0;
      if (which == 1) {
        std1 = true;
        for (int cc : m.cls)
          std1 = std1 && (cc == 1 || cc == 2 || cc == 4 || cc == 3 || cc == 5);
      }
      if (std1) {
        if (!part)
          check_uniform_forest (c, sc, lvl, m, off, "forest");
        else {
          /* the mesh first has to follow the uniform refinement */
          t8_cmesh_t u;
          t8_cmesh_init (&u);
          t8_cmesh_ref (c);
          t8_cmesh_set_derive (u, c);
          ((t8_scheme_c *) sc)->ref ();
          t8_cmesh_set_partition_uniform (u, lvl, sc);
          t8_cmesh_commit (u, st ().comm);
          check_uniform_forest (u, sc, lvl, m, off, "forest-partitioned");
          t8_cmesh_destroy (&u);
        }
      }
    }
    if (any_violation ())
      return;
    t8_cmesh_destroy (&c);
    VF_CHECK (held_blocks () == before, "leak", "%d blocks held, %d before", held_blocks (), before);
  }
  for (auto s : schemes)
    ((t8_scheme_c *) s)->unref ();
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  const i64 n = opt_int ("n", 60);
  if (!has_opt ("no-arith"))
    run_arith ((i64) (60 * n * st ().scale));
  if (!any_violation ())
    run_bounds ((i64) (n * st ().scale));
  return finish ();
}
