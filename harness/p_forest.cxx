/* Forest histories: C05 leaves tile the mesh, C06 adaptation, C07 partition, C08 partition data, C09 balance. */
#include "fcheck.hxx"
#include <t8_fortran_interface.h>
#include <t8_cmesh/t8_cmesh_examples.h>
#include <t8_forest/t8_forest_geometrical.h>
using namespace vf;

/* ---- C08 ---- */
static void
check_partition_data (World &w, t8_forest_t old, const Snap &S0)
{
  if (!run_too ("C08"))
    return;
  for (int rep = 0; rep < 3; ++rep) {
    const size_t sz = w.r.pick (std::vector<size_t> { 1, 2, 3, 4, 7, 8, 16, 24, 40, 129, 1000 });
    const u64 salt = w.r.next ();
    auto item = [&] (const Leaf &x, unsigned char *p) {
      u64 h = comb (comb (comb (salt, x.t), x.l), x.id);
      for (size_t i = 0; i < sz; ++i) {
        if (i % 8 == 0)
          h = mix (h);
        p[i] = (unsigned char) (h >> (8 * (i % 8)));
      }
    };
    sc_array_t in, out;
    sc_array_init_size (&in, sz, S0.nloc ());
    sc_array_init_size (&out, sz, w.S.nloc ());
    std::vector<unsigned char> buf (sz);
    for (i64 i = 0; i < S0.nloc (); ++i)
      item (S0.g[S0.off[w.me] + i], (unsigned char *) sc_array_index (&in, i));
    const u64 hin = hash_bytes (in.array, in.elem_count * sz);
    if (w.S.nloc ())
      memset (out.array, 0xEE, out.elem_count * sz);
    w_ctx (w, fmt ("data%zu", sz).c_str ());
    t8_forest_partition_data (old, w.f, &in, &out);
    VF_CHECK (hash_bytes (in.array, in.elem_count * sz) == hin, "input-changed", "the input data has changed");
    VF_CHECK ((i64) out.elem_count == w.S.nloc () && out.elem_size == sz, "output-size", "the output array has been resized");
    for (i64 i = 0; i < w.S.nloc (); ++i) {
      const Leaf &x = w.S.g[w.S.off[w.me] + i];
      item (x, buf.data ());
      if (memcmp (buf.data (), sc_array_index (&out, i), sz)) {
        i64 from = -1;
        std::vector<unsigned char> b2 (sz);
        for (i64 k = 0; k < S0.n (); ++k) {
          item (S0.g[k], b2.data ());
          if (!memcmp (b2.data (), sc_array_index (&out, i), sz)) {
            from = k;
            break;
          }
        }
        viol ("data", "item of size %zu of local leaf %lld (global %lld) is wrong%s", sz, (long long) i, (long long) (w.S.off[w.me] + i),
              from >= 0 ? fmt (": it belongs to global leaf %lld", (long long) from).c_str () : "");
        break;
      }
      count ("items");
    }
    if (S0.g.size ()) {
      i64 moved = 0;
      for (i64 i = w.S.off[w.me]; i < w.S.off[w.me + 1]; ++i)
        moved += i < S0.off[w.me] || i >= S0.off[w.me + 1];
      count ("items_moved", moved);
    }
    count ("transfers");
    u64 h = comb (w.S.n (), sz);
    for (i64 x : S0.off)
      h = comb (h, x);
    for (i64 x : w.S.off)
      h = comb (h, x);
    seen ("transfers", h);
    sc_array_reset (&in);
    sc_array_reset (&out);
  }
}

static void
check_is_balanced (World &w)
{
  if (!want ("C09") || w.incomplete || (!w.ghost && w.P > 1))
    return;
  snap_adjacency (w.S);
  bool local = true, global = snap_balanced (w.S);
  for (i64 i = w.S.off[w.me]; i < w.S.off[w.me + 1]; ++i)
    for (auto &a : w.S.adj[i])
      for (auto &b : a)
        if (w.S.g[b.leaf].l > w.S.g[i].l + 1)
          local = false;
  w_ctx (w, "is_balanced");
  const bool r = t8_forest_is_balanced (w.f);
  VF_CHECK (r == local, "is-balanced", "the balance test says %d, the leaves of this process are %sbalanced (all: %d)", r, local ? "" : "not ", global);
  count (local ? "balanced_true" : "balanced_false");
}

static void
run_case (i64 k, u64 seed)
{
  World w (seed, st ().comm);
  const int before = held_blocks ();
  w.limit = opt_int ("limit", 1200);
  /* few small families whose members change the process all the time */
  const bool churn = (st ().prop == "C07" || st ().prop == "C18" || st ().prop == "C00") && w.r.chance (0.3);
  /* one spot refined very deeply next to coarse leaves: many rounds of balance */
  const std::string &pr = st ().prop;
  const bool deep = !churn && (pr == "C09" || pr == "C18" || pr == "C00" || pr == "C05") && w.r.chance (0.08);
  if (deep) {
    const int sid = w.r.chance (0.7) ? 0 : 1;
    const int cl = w.r.pick (std::vector<int> { LINE, QUAD, TRI });
    w.make_mesh = [cl] (Rng &r) { return fm_abstract (r, r.range (1, 3), { cl }); };
    w_start (w, sid, 3, w.r.range (0, 1));
    count ("deep_spots");
  }
  else if (churn) {
    const int sid = w.r.chance (0.8) ? 0 : 1;
    const std::vector<int> only = sid ? w.r.pick (std::vector<std::vector<int>> { { HEX }, { TET }, { QUAD, TRI } })
                                      : w.r.pick (std::vector<std::vector<int>> { { PYR }, { PYR, TET }, { PYR }, { HEX, PRISM }, { TRI, QUAD } });
    w.make_mesh = [only] (Rng &r) { return fm_abstract (r, r.range (1, 3), only); };
    w_start (w, sid, 3, w.r.chance (0.8) ? 1 : 2);
    count ("churns");
  }
  else if (w.r.chance (0.2)) {
    /* few leaves, many removed: empty processes and split trees */
    w.prem_bias = 0.6;
    w_start (w, w.r.chance (0.7) ? 0 : 1, w.r.range (1, 3), w.r.range (1, 2));
  }
  else
    w_start (w, w.r.chance (0.7) ? 0 : 1, w.r.chance (0.3) ? 1 : w.r.range (1, 8));
  const std::string head = w.hist;
  w.hist = fmt ("case %lld seed %llu ", (long long) k, (unsigned long long) st ().seed) + head;
  ctx ("%s", w.hist.c_str ());
  if (want ("C05")) {
    check_leaves (w);
    int lvl = w.S.n () ? w.S.g[0].l : 0;
    i64 n = 0;
    for (int c : w.m.m.cls)
      n += w.s->count_leaves_from_root ((t8_eclass_t) c, lvl);
    VF_CHECK (n == w.S.n (), "uniform-count", "%lld leaves instead of %lld", (long long) w.S.n (), (long long) n);
    for (auto &x : w.S.g)
      if (x.l != lvl) {
        viol ("uniform-level", "leaf %s in a uniform forest of level %d", leaf_str (x).c_str (), lvl);
        break;
      }
  }
  const int nops = churn ? 24 : deep ? w.r.range (2, 3) : w.r.range (2, 6);
  for (int i = 0; i < nops && !any_violation (); ++i) {
    OpSpec o = random_op (w);
    if (deep && i < 2 && w.S.n () > 0) {
      o = OpSpec ();
      o.what = i ? W_BAL : W_ADAPT;
      o.profile = w.r.chance (0.7);
      o.no_repart = w.r.chance (0.5);
      o.d.salt = w.r.next ();
      o.d.pref = o.d.pco = o.d.prem = 0;
      o.rec = true;
      const Leaf x = w.S.g[w.r.below (w.S.n ())];
      o.d.tree = x.t;
      o.d.target = w.r.chance (0.7) ? x.lo + (x.hi - x.lo) / 2 : w.r.chance (0.3) ? x.lo : x.lo + w.r.below (x.hi - x.lo + 1);
      o.d.cap = w.r.range (10, 17);
      o.d.cap2 = 0;
      if (i)
        o.rec = false;
    }
    else if (churn && w.r.chance (0.95)) {
      o.what = W_PART;
      o.d.prem = 0;
      o.rec = false;
      o.offsets = w.r.chance (i % 2 ? 0.2 : 0.8);
      o.for_coarsening = i % 2;
      if (o.offsets) {
        o.weights = 0;
        o.off = random_offsets (w.r, w.S.n (), w.P);
      }
      else if (w.r.chance (0.6))
        o.weights = 0;
    }
    else if ((st ().prop == "C08" || st ().prop == "C18") && w.r.chance (0.6)) {
      o.what = W_PART;
      o.d.prem = 0;
      o.rec = false;
      if (w.r.chance (0.5)) {
        o.weights = 0;
        o.offsets = true;
        o.off = random_offsets (w.r, w.S.n (), w.P);
      }
    }
    if (st ().prop == "C09" && !w.incomplete && w.r.chance (0.4)) {
      o.what = W_BAL | (w.r.chance (0.5) ? W_ADAPT : 0);
      o.d.prem = 0;
      o.d.force_target = false;
      o.for_coarsening = o.offsets = false;
      o.weights = 0;
    }
    if ((o.what & W_ADAPT) && o.d.prem > 0 && (st ().prop == "C09"))
      o.d.prem = 0;
    const Snap S0 = w.S;
    t8_forest_t old = do_op (w, o, o.what == W_PART || o.what == W_COPY);
    if (any_violation ())
      return;
    if (!snap_sane (w.S)) {
      check_leaves (w);
      if (old)
        t8_forest_unref (&old);
      break;
    }
    check_leaves (w);
    if (old && o.what == W_PART)
      check_partition_data (w, old, S0);
    if (old)
      t8_forest_unref (&old);
    check_is_balanced (w);
    count ("leaves_seen", w.S.nloc ());
    if (w.S.nloc () == 0)
      count ("empty_processes");
    seen ("states", w.S.hash (true));
    if (w.S.n () > 8 * w.limit)
      break;
  }
  if (!any_violation () && want ("C07") && w.r.chance (0.2)) {
    const Snap S0 = w.S;
    const int g = w.r.range (0, w.P - 1);
    w_ctx (w, fmt ("gather%d", g).c_str ());
    w.f = t8_forest_new_gather (w.f, g);
    w.S = snap_take (w.f, &w.m);
    compare_seq (w, "C07", S0.g, "gather");
    for (int p = 0; p < w.P; ++p)
      VF_CHECK (w.S.off[p + 1] - w.S.off[p] == (p == g ? w.S.n () : 0), "gather", "process %d has %lld leaves after gathering on %d", p,
                (long long) (w.S.off[p + 1] - w.S.off[p]), g);
    count ("gathers");
  }
  if (any_violation ())
    return;
  if (k < 3)
    sample (w.hist.substr (0, 400));
  seen ("histories", hash_str (w.hist));
  count ("cases");
  w_end (w);
  VF_CHECK (held_blocks () == before, "leak", "%d blocks held, %d before", held_blocks (), before);
}

/* ---- C06: the adaptation by coordinates of the Fortran interface ---- */
struct CoordCall
{
  double x, y, z;
  int fam;
};
static struct
{
  double n[3], d, band;
  int cap_below;
  std::vector<CoordCall> calls;
} g_coord;

/* refine on one side of a plane, coarsen far on the other one; never answers -1 for a single element */
static int
coord_decide (double x, double y, double z, int fam)
{
  g_coord.calls.push_back ({ x, y, z, fam });
  const double v = x * g_coord.n[0] + y * g_coord.n[1] + z * g_coord.n[2] - g_coord.d;
  if (std::fabs (v) < g_coord.band)
    return g_coord.calls.size () > 20000 ? 0 : 1;
  return v < 0 && fam ? -1 : 0;
}

static int
coord_own (t8_forest_t, t8_forest_t from, t8_locidx_t tree, const t8_eclass_t c, t8_locidx_t, const t8_scheme *s, const int fam, const int,
           t8_element_t *el[])
{
  double m[3];
  if (fam) {
    t8_element_t *p;
    s->element_new (c, 1, &p);
    s->element_get_parent (c, el[0], p);
    t8_forest_element_centroid (from, tree, p, m);
    s->element_destroy (c, 1, &p);
  }
  else
    t8_forest_element_centroid (from, tree, el[0], m);
  return coord_decide (m[0], m[1], m[2], fam);
}

static void
coord_case (i64 k, u64 seed)
{
  Rng r (comb (seed, 77));
  const int before = held_blocks ();
  const int cl = r.pick (std::vector<int> { LINE, QUAD, TRI, HEX, TET, PRISM, PYR, -1, -2 });
  const int level = r.range (0, 2), ghost = r.range (0, 1), steps = r.range (1, 3);
  sc_MPI_Comm *cm = t8_fortran_MPI_Comm_new (MPI_Comm_c2f (st ().comm));
  VF_CHECK (*cm == st ().comm, "fortran-comm", "the communicator changed on its way through the Fortran interface");
  ctx ("case %lld seed %llu coordinates class %d level %d ghost %d", (long long) k, (unsigned long long) st ().seed, cl, level, ghost);
  t8_cmesh_t c;
  if (cl == -2)
    c = t8_cmesh_new_periodic_tri_wrap (cm);
  else {
    t8_cmesh_init (&c);
    if (cl == -1)
      t8_cmesh_new_hypercube_hybrid (c, *cm, 0);
    else
      t8_cmesh_new_hypercube (&c, (t8_eclass_t) cl, *cm, 0, 0, 0);
  }
  t8_cmesh_ref (c);
  t8_cmesh_ref (c);
  t8_forest_t f = t8_forest_new_uniform_default (c, level, ghost, cm);
  {
    const t8_scheme *sch = t8_forest_get_scheme (f);
    t8_scheme_ref (const_cast<t8_scheme *> (sch));
    t8_forest_t ref = t8_forest_new_uniform (c, sch, level, ghost, st ().comm);
    VF_CHECK (t8_forest_is_equal (f, ref), "fortran-uniform", "the uniform forest of the Fortran interface differs");
    VF_CHECK ((t8_forest_get_num_ghosts (f) > 0) == (t8_forest_get_num_ghosts (ref) > 0), "fortran-uniform", "ghosts %d and %d",
              (int) t8_forest_get_num_ghosts (f), (int) t8_forest_get_num_ghosts (ref));
    t8_forest_unref (&ref);
  }
  for (int i = 0; i < steps && !any_violation (); ++i) {
    for (double &x : g_coord.n)
      x = r.range (-100, 100) / 37.0 + 0.0123456;
    g_coord.d = r.range (-20, 60) / 29.0 + 0.00345678;
    g_coord.band = 0.05 + 0.01 * r.range (0, 40);
    const int rec = r.chance (0.3) && level < 2 && i == 0 ? 1 : 0;
    if (rec)
      g_coord.band = -1; /* recursive refinement would not end */
    t8_forest_ref (f);
    g_coord.calls.clear ();
    t8_forest_t own = t8_forest_new_adapt (f, coord_own, rec, 0, nullptr);
    const std::vector<CoordCall> want_calls = g_coord.calls;
    g_coord.calls.clear ();
    t8_forest_t got = t8_forest_adapt_by_coordinates (f, rec, coord_decide);
    const std::vector<CoordCall> &have = g_coord.calls;
    VF_CHECK (have.size () == want_calls.size (), "coord-calls", "%zu calls of the coordinate callback instead of %zu", have.size (), want_calls.size ());
    for (size_t j = 0; j < have.size () && j < want_calls.size (); ++j) {
      const CoordCall &a = have[j], &b = want_calls[j];
      VF_CHECK (a.fam == b.fam, "coord-family", "call %zu: family %d instead of %d", j, a.fam, b.fam);
      VF_CHECK (std::fabs (a.x - b.x) + std::fabs (a.y - b.y) + std::fabs (a.z - b.z) < 1e-9, "coord-point",
                "call %zu (family %d): point %g %g %g instead of %g %g %g", j, a.fam, a.x, a.y, a.z, b.x, b.y, b.z);
      count ("coord_calls");
    }
    VF_CHECK (t8_forest_is_equal (own, got), "coord-result", "adaptation by coordinates: another forest than with the same decisions (%lld and %lld leaves)",
              (long long) t8_forest_get_local_num_leaf_elements (got), (long long) t8_forest_get_local_num_leaf_elements (own));
    count ("coord_adapts");
    t8_forest_unref (&own);
    f = got;
  }
  t8_forest_unref (&f);
  t8_cmesh_unref (&c);
  t8_fortran_MPI_Comm_delete (cm);
  if (!any_violation ())
    VF_CHECK (held_blocks () == before, "leak", "%d blocks held, %d before", held_blocks (), before);
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  const i64 n = (i64) (opt_int ("n", 40) * st ().scale);
  Rng r (comb (st ().seed, 4711));
  for (i64 k = 0; k < n; ++k) {
    const u64 s = r.next ();
    if (st ().only_case >= 0 && st ().only_case != k)
      continue;
    run_case (k, s);
    if (run_too ("C06") && k % 4 == 0 && !any_violation ())
      coord_case (k, s);
    if (any_violation ())
      break;
  }
  return finish ();
}
