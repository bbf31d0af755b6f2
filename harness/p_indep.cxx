/* C16: the same global history on different communicators, process counts, coarse mesh distributions, partitions and message timings. */
#include "fcheck.hxx"
#include "pmpi.hxx"
using namespace vf;

struct Run
{
  std::vector<u64> seq;   /* global leaves after each step */
  std::vector<u64> facts; /* what is reported about them */
  std::vector<i64> n;
  std::string hist;
};
/* sum over all leaves of what the forest says about each (own leaves only, then summed up) */
static u64
facts_of (World &w)
{
  const Snap &S = w.S;
  t8_forest_t f = w.f;
  u64 sum = 0;
  i64 k = S.off[w.me];
  const bool nb = !w.incomplete && (w.P == 1 || w.ghost) && S.n () < 3000;
  const t8_locidx_t nloc = t8_forest_get_local_num_leaf_elements (f);
  /* global position of the ghosts */
  std::vector<i64> gpos;
  if (nb && w.P > 1 && nloc > 0)
    for (t8_locidx_t it = 0; it < t8_forest_get_num_ghost_trees (f); ++it) {
      const t8_eclass_t ec = t8_forest_ghost_get_tree_class (f, it);
      const int gt = (int) t8_forest_ghost_get_global_treeid (f, it);
      for (t8_locidx_t i = 0; i < t8_forest_ghost_tree_num_leaf_elements (f, it); ++i)
        gpos.push_back (snap_find (S, leaf_of (w.s, ec, t8_forest_ghost_get_leaf_element (f, it, i), gt, S.maxl)));
    }
  for (t8_locidx_t lt = 0; lt < t8_forest_get_num_local_trees (f); ++lt) {
    const t8_eclass_t ec = t8_forest_get_tree_class (f, lt);
    const int gt = (int) t8_forest_global_tree_id (f, lt);
    for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (f, lt); ++i, ++k) {
      const t8_element_t *e = t8_forest_get_leaf_element_in_tree (f, lt, i);
      u64 h = comb (mix (gt * 8 + ec), k);
      h = comb (h, w.s->element_get_level (ec, e));
      h = comb (h, w.s->element_get_shape (ec, e));
      if (nb)
        for (int fa = 0; fa < w.s->element_get_num_faces (ec, e); ++fa) {
          const t8_element_t **p = nullptr;
          int *dual = nullptr, num = 0, ori = -7;
          t8_locidx_t *idx = nullptr;
          t8_eclass_t nec = T8_ECLASS_INVALID;
          t8_gloidx_t gn = -7;
          t8_forest_leaf_face_neighbors_ext (f, lt, e, &p, fa, &dual, &num, &idx, &nec, &gn, &ori);
          std::vector<std::pair<i64, int>> v;
          for (int j = 0; j < num; ++j) {
            i64 pos = idx[j] < nloc ? S.off[w.me] + idx[j] : (size_t) (idx[j] - nloc) < gpos.size () ? gpos[idx[j] - nloc] : -2;
            v.push_back ({ pos, dual[j] });
          }
          std::sort (v.begin (), v.end ());
          h = comb (h, num * 64 + fa);
          for (auto &x : v)
            h = comb (comb (h, x.first), x.second);
          if (num > 0) {
            h = comb (comb (h, gn), nec);
            h = comb (h, ori);
            T8_FREE (p);
            T8_FREE (dual);
            T8_FREE (idx);
          }
          count ("face_facts");
        }
      sum += mix (h);
      count ("leaf_facts");
    }
  }
  u64 g = 0;
  PMPI_Allreduce (&sum, &g, 1, MPI_UINT64_T, MPI_SUM, w.comm);
  return nb ? g : 0;
}
static void
step (World &w, Run &R)
{
  R.n.push_back (w.S.n ());
  R.seq.push_back (w.S.hash (false));
  R.facts.push_back (snap_sane (w.S) ? facts_of (w) : 1);
}
static Run
run (i64 k, u64 seed, sc_MPI_Comm comm, int var, int mode)
{
  Run R;
  World w (seed, comm);
  Rng own (comb (seed, 1000 + var)); /* choices that must not matter */
  w.limit = opt_int ("limit", 600);
  w.part_force = var == 0 ? 0 : own.chance (0.5);
  const int sid = w.r.chance (0.7) ? 0 : 1, cells = w.r.chance (0.3) ? 1 : w.r.range (1, 8);
  mpi_watch (mode, comb (seed, var));
  w_start (w, sid, cells);
  w.hist = fmt ("case %lld seed %llu variant %d mode %d ", (long long) k, (unsigned long long) st ().seed, var, mode) + w.hist;
  w_ctx (w, "");
  w.r = Rng (comb (seed, 5));
  step (w, R);
  const int nops = w.r.range (2, 5);
  for (int i = 0; i < nops && snap_sane (w.S); ++i) {
    OpSpec o;
    const double u = w.r.unit ();
    o.what = u < 0.45 ? W_ADAPT : u < 0.6 ? W_BAL : u < 0.7 ? W_ADAPT | W_BAL : u < 0.8 ? W_ADAPT | W_PART : u < 0.9 ? W_ADAPT | W_PART | W_BAL : W_PART;
    o.d = w_decision (w);
    o.rec = w.r.chance (0.3);
    o.d.prem = 0;
    const bool coarsen = w.r.chance (0.6) && !o.rec;
    if (o.rec && o.d.tree < 0 && o.d.pref >= 0.6)
      o.d.cap = std::min (o.d.cap, 2);
    if (!coarsen) {
      o.d.pco = 0;
      o.d.coarse_all = false;
    }
    if (w.m.m.dim == 3 && w.S.n () > 150)
      o.what &= ~W_BAL;
    if (!o.what)
      o.what = W_PART;
    if ((o.what & W_ADAPT) && coarsen) {
      /* keep families together, everywhere the same way of asking */
      OpSpec q;
      q.what = W_PART;
      q.for_coarsening = true;
      q.d = o.d;
      if (own.chance (0.5))
        q.weights = own.range (1, 4);
      q.wsalt = own.next ();
      do_op (w, q, false);
    }
    if (o.what & W_PART) {
      o.wsalt = own.next ();
      if (own.chance (0.5))
        o.weights = own.range (1, 4);
      else if (own.chance (0.5) && o.what == W_PART) {
        o.offsets = true;
        o.off = random_offsets (own, w.S.n (), w.P);
      }
      o.for_coarsening = own.chance (0.3);
    }
    else if (own.chance (0.4)) {
      /* an additional partition changes nothing */
      OpSpec q;
      q.what = W_PART;
      q.d = o.d;
      q.wsalt = own.next ();
      q.for_coarsening = (o.what & W_ADAPT) && coarsen;
      if (own.chance (0.5))
        q.weights = own.range (1, 4);
      do_op (w, q, false);
    }
    o.no_repart = own.chance (0.5);
    o.ghost = own.chance (0.8) ? ((o.what & W_BAL) ? own.range (1, 3) : own.range (2, 3)) : 0;
    do_op (w, o, false);
    step (w, R);
    if (w.S.n () > 8 * w.limit)
      break;
  }
  R.hist = w.hist;
  w_end (w);
  mpi_watch (0, 0);
  return R;
}
static void
run_case (i64 k, u64 seed)
{
  const int before = held_blocks ();
  const int me = st ().rank, P = st ().size;
  Run A, B;
  if (me == 0)
    A = run (k, seed, MPI_COMM_SELF, 0, 0);
  /* the reference to all */
  i64 n = (i64) A.seq.size ();
  PMPI_Bcast (&n, 1, MPI_INT64_T, 0, st ().comm);
  A.seq.resize (n);
  A.facts.resize (n);
  A.n.resize (n);
  PMPI_Bcast (A.seq.data (), (int) n, MPI_UINT64_T, 0, st ().comm);
  PMPI_Bcast (A.facts.data (), (int) n, MPI_UINT64_T, 0, st ().comm);
  PMPI_Bcast (A.n.data (), (int) n, MPI_INT64_T, 0, st ().comm);
  if (me == 0)
    for (i64 i = 0; i < n; ++i)
      seen ("states", A.seq[i]);
  Rng r (comb (seed, 31));
  for (int var = 1; var <= 4; ++var) {
    MPI_Comm c;
    const int how = var == 1 ? 0 : r.range (0, 3);
    const int g = r.range (1, P);
    const int mode = var == 1 ? 0 : (r.chance (0.7) ? MPI_DELAY : 0) | (r.chance (0.5) ? MPI_SYNC : 0) | (r.chance (0.7) ? MPI_SHUFFLE : 0);
    if (how <= 1)
      PMPI_Comm_split (st ().comm, 0, how == 0 ? me : -me, &c);
    else if (how == 2)
      PMPI_Comm_split (st ().comm, me % g, me, &c);
    else
      PMPI_Comm_split (st ().comm, me < g, -me, &c);
    int cs;
    PMPI_Comm_size (c, &cs);
    B = run (k, seed, c, var * 100 + how * 10 + (how == 2 ? me % g : how == 3 ? me < g : 0), mode);
    count ("runs");
    count (cs == 1 ? "runs_1" : cs == 2 ? "runs_2" : cs == 3 ? "runs_3" : "runs_more");
    if (mode)
      count ("disturbed_runs");
    const size_t m = std::min (A.seq.size (), B.seq.size ());
    size_t i = 0;
    while (i < m && A.seq[i] == B.seq[i])
      ++i;
    if (i < m || A.seq.size () != B.seq.size ())
      viol ("other-mesh", "on %d processes (mode %d) step %zu has other leaves (%lld) than on one process (%lld): %s", cs, mode, i, i < B.n.size () ? (long long) B.n[i] : -1,
            i < A.n.size () ? (long long) A.n[i] : -1, B.hist.c_str ());
    for (i = 0; i < m; ++i)
      if (A.facts[i] && B.facts[i] && A.facts[i] != B.facts[i]) {
        viol ("other-facts", "on %d processes (mode %d) step %zu: other neighbors, levels or shapes of leaves are reported than on one process: %s", cs, mode, i,
              B.hist.c_str ());
        break;
      }
      else if (A.facts[i] && B.facts[i])
        count ("compared_facts");
    seen ("histories", comb (comb (A.seq.back (), cs), comb (how, mode)));
    sc_MPI_Comm cc = c;
    (void) cc;
    any_violation ();
    PMPI_Comm_free (&c);
    if (any_violation ())
      return;
  }
  count ("cases");
  if (k < 2)
    sample (B.hist.substr (0, 400));
  VF_CHECK (held_blocks () == before, "leak", "%d blocks held, %d before", held_blocks (), before);
}
int
main (int argc, char **argv)
{
  init (argc, argv);
  const i64 n = (i64) (opt_int ("n", 20) * st ().scale);
  Rng r (comb (st ().seed, 1611));
  for (i64 k = 0; k < n; ++k) {
    const u64 s = r.next ();
    if (st ().only_case >= 0 && st ().only_case != k)
      continue;
    run_case (k, s);
    if (any_violation ())
      break;
  }
  return finish ();
}
