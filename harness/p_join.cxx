/* C22: face connectivity from coordinates, and the global vertex tables. */
#include "gmesh.hxx"
#include <t8_cmesh/t8_cmesh_helpers.h>
#include <t8_cmesh/t8_cmesh_vertex_connectivity/t8_cmesh_vertex_connectivity.h>
#include <t8_cmesh/t8_cmesh_vertex_connectivity/t8_cmesh_vertex_connectivity.hxx>

using namespace vf;

static void
check_conn (const int *conn, const GMesh &g, const CModel &m, bool both, const char *key)
{
  auto K = [&] (const char *s) { return std::string (key) + s; };
  auto at = [&] (int t, int f, int i) { return conn[(t * 6 + f) * 3 + i]; };
  for (int t = 0; t < g.n (); ++t)
    for (int f = 0; f < S_NF[g.cls[t]]; ++f) {
      const Conn &c = m.conn[t][f];
      count ("faces");
      if (c.tree < 0)
        VF_CHECK (at (t, f, 0) == -1, K ("-spurious").c_str (), "tree %d face %d has no partner but is joined to tree %d face %d", t, f, at (t, f, 0), at (t, f, 1));
      else {
        count ("joined_faces");
        bool here = at (t, f, 0) >= 0, there = at (c.tree, c.face, 0) >= 0;
        VF_CHECK (both ? here : (here || there), K ("-missing").c_str (), "tree %d face %d and tree %d face %d have the same corners but are not joined", t, f, c.tree, c.face);
        if (here)
          VF_CHECK (at (t, f, 0) == c.tree && at (t, f, 1) == c.face && at (t, f, 2) == c.orient, K ("-wrong").c_str (),
                    "tree %d face %d is joined to tree %d face %d orientation %d instead of tree %d face %d orientation %d", t, f, at (t, f, 0),
                    at (t, f, 1), at (t, f, 2), c.tree, c.face, c.orient);
      }
    }
}

static void
run_join (i64 nc)
{
  Rng shape (comb (st ().seed, 401 + st ().rank));
  for (i64 k = 0; k < nc; ++k) {
    Rng r (comb (shape.next (), k));
    if (st ().only_case >= 0 && k != st ().only_case)
      continue;
    GmOpt o;
    o.max_cells = r.chance (0.1) ? 60 : 14;
    o.unit = r.chance (0.3);
    o.planar = r.chance (0.7);
    GMesh g = gm_random (r, o);
    if (r.chance (0.2)) { /* extreme placement */
      double s = r.pick (std::vector<double> { 1e-6, 1e6, 1e-3, 1e3 });
      for (auto &p : g.pts)
        for (int d = 0; d < 3; ++d)
          p[d] = p[d] * s;
    }
    /* drop some trees: more boundary faces */
    if (r.chance (0.3))
      for (int t = g.n () - 1; t >= 0 && g.n () > 1; --t)
        if (r.chance (0.3)) {
          g.cls.erase (g.cls.begin () + t);
          g.tv.erase (g.tv.begin () + t);
        }
    if (r.chance (0.25)) { /* a narrow slit: nearly, but not exactly the same corner */
      double lo = 1e300, hi = -1e300;
      for (auto &p : g.pts)
        for (int d = 0; d < g.dim; ++d) {
          lo = std::min (lo, p[d]);
          hi = std::max (hi, p[d]);
        }
      int t = (int) r.below (g.n ()), i = (int) r.below (g.tv[t].size ());
      D3 p = g.pts[g.tv[t][i]];
      p[r.below (g.dim)] += (hi - lo) * r.pick (std::vector<double> { 1e-3, 1e-6, -1e-8, 1e-10, -1e-11 });
      g.pts.push_back (p);
      g.tv[t][i] = (int) g.pts.size () - 1;
      count ("slits");
    }
    CModel m = gm_model (g, true);
    ctx ("case %lld %s", (long long) k, g.str ().c_str ());
    if (k < 3)
      sample (g.str ().substr (0, 300));
    seen ("meshes", comb (g.hash (), (u64) (g.pts[0][0] * 1e6)));
    count ("cases");
    const int before = held_blocks ();
    std::vector<t8_eclass_t> ec;
    std::vector<double> vert (g.n () * 24, 0.0);
    for (int t = 0; t < g.n (); ++t) {
      ec.push_back ((t8_eclass_t) g.cls[t]);
      std::vector<double> v = g.coords (t);
      std::copy (v.begin (), v.end (), vert.begin () + t * 24);
    }
    if (r.chance (0.4)) { /* the same corners up to the rounding errors of different ways to compute them */
      double lo = 1e300, hi = -1e300;
      for (int t = 0; t < g.n (); ++t)
        for (int i = 0; i < S_NV[g.cls[t]]; ++i)
          for (int d = 0; d < g.dim; ++d) {
            lo = std::min (lo, vert[t * 24 + 3 * i + d]);
            hi = std::max (hi, vert[t * 24 + 3 * i + d]);
          }
      for (int t = 0; t < g.n (); ++t)
        for (int i = 0; i < S_NV[g.cls[t]]; ++i)
          for (int d = 0; d < g.dim; ++d) {
            double &x = vert[t * 24 + 3 * i + d];
            const double ulp = std::nextafter (std::fabs (x), 1e300) - std::fabs (x);
            /* well below the documented tolerance of 10 rounding errors of the extent */
            if (2 * ulp <= 4e-16 * (hi - lo))
              x += r.range (-1, 1) * ulp;
          }
      for (int t = 0; t < g.n (); ++t)
        m.attr[t][AKey { t8_get_package_id (), T8_CMESH_VERTICES_ATTRIBUTE_KEY }].assign ((const char *) &vert[24 * t], S_NV[g.cls[t]] * 24);
      count ("rounded");
    }
    const bool both = r.chance (0.5);
    int *conn = NULL;
    t8_cmesh_set_join_by_vertices (NULL, g.n (), ec.data (), vert.data (), &conn, both);
    check_conn (conn, g, m, both, "join");
    T8_FREE (conn);
    conn = NULL;
    /* into a mesh, by vertices or from the stash; then as the committed mesh reports it */
    t8_cmesh_t c;
    t8_cmesh_init (&c);
    t8_cmesh_set_dimension (c, g.dim);
    std::vector<int> ord (g.n ());
    for (int t = 0; t < g.n (); ++t)
      ord[t] = t;
    for (int t = g.n (); t > 1; --t)
      std::swap (ord[t - 1], ord[r.below (t)]);
    std::vector<int> pend (ord);
    for (int t : ord)
      t8_cmesh_set_tree_class (c, t, ec[t]);
    for (int t = g.n (); t > 1; --t)
      std::swap (ord[t - 1], ord[r.below (t)]);
    for (int t : ord)
      t8_cmesh_set_tree_vertices (c, t, &vert[24 * t], S_NV[g.cls[t]]);
    /* vertex labels: the mesh's own points under an arbitrary numbering, or arbitrary labels */
    const bool labels = r.chance (0.7), own = r.chance (0.6);
    std::vector<std::vector<t8_gloidx_t>> lab (g.n ());
    std::map<t8_gloidx_t, std::vector<std::pair<int, int>>> inv;
    if (labels) {
      const u64 salt = r.next ();
      const int sh = r.range (1, 60);
      const u64 pool = r.range (1, 3 * g.n () + 2);
      for (int t = 0; t < g.n (); ++t)
        for (size_t i = 0; i < g.tv[t].size (); ++i) {
          /* 63-bit labels of the points: collisions only for small label spaces */
          t8_gloidx_t l = own ? (t8_gloidx_t) (((u64) g.tv[t][i] * 2 + 1) * ((salt >> sh) | 1) & 0x7fffffffffffffffULL) : (t8_gloidx_t) r.below (pool);
          lab[t].push_back (l);
          inv[l].push_back ({ t, (int) i });
        }
      for (int t : ord)
        t8_cmesh_set_global_vertices_of_tree (c, t, lab[t].data (), (int) lab[t].size ());
    }
    if (r.chance (0.5))
      t8_cmesh_set_join_by_stash (c, r.chance (0.5) ? &conn : NULL, both);
    else
      t8_cmesh_set_join_by_vertices (c, g.n (), ec.data (), vert.data (), r.chance (0.5) ? &conn : NULL, both);
    if (conn) {
      check_conn (conn, g, m, both, "join2");
      T8_FREE (conn);
    }
    t8_cmesh_register_geometry<t8_geometry_linear> (c);
    t8_cmesh_commit (c, sc_MPI_COMM_SELF);
    cm_check (c, m, false, 0, g.n () - 1, "committed", true);
    VF_CHECK (!!t8_cmesh_uses_vertex_connectivity (c) == labels, "uses-vertices", "uses_vertex_connectivity");
    if (labels) {
      count ("labelled");
      VF_CHECK (t8_cmesh_get_num_global_vertices (c) == (i64) inv.size (), "num-vertices", "%lld global vertices instead of %zu",
                (long long) t8_cmesh_get_num_global_vertices (c), inv.size ());
      VF_CHECK (t8_cmesh_get_num_local_vertices (c) == (i64) inv.size (), "num-local-vertices", "%d local vertices instead of %zu",
                t8_cmesh_get_num_local_vertices (c), inv.size ());
      for (int t = 0; t < g.n (); ++t) {
        int nv = -1;
        const t8_gloidx_t *p = t8_cmesh_get_global_vertices_of_tree (c, t, &nv);
        VF_CHECK (nv == (int) lab[t].size (), "tree-vertices", "tree %d has %d vertices", t, nv);
        for (int i = 0; i < nv && i < (int) lab[t].size (); ++i) {
          count ("corner_labels");
          VF_CHECK (p[i] == lab[t][i], "tree-vertex", "tree %d corner %d has vertex %lld instead of %lld", t, i, (long long) p[i], (long long) lab[t][i]);
          VF_CHECK (t8_cmesh_get_global_vertex_of_tree (c, t, i) == lab[t][i], "tree-vertex1", "tree %d corner %d", t, i);
        }
      }
      for (auto &x : inv) {
        VF_CHECK (t8_cmesh_get_num_trees_at_vertex (c, x.first) == (int) x.second.size (), "vertex-count", "vertex %lld has %d entries instead of %zu",
                  (long long) x.first, t8_cmesh_get_num_trees_at_vertex (c, x.first), x.second.size ());
        const tree_vertex_list &l = t8_cmesh_get_vertex_to_tree_list (c, x.first);
        std::vector<std::pair<int, int>> got;
        for (auto &e : l)
          got.push_back ({ (int) e.first, (int) e.second });
        VF_CHECK (std::is_sorted (got.begin (), got.end ()), "vertex-sorted", "the list of vertex %lld is not sorted by tree", (long long) x.first);
        std::sort (got.begin (), got.end ());
        VF_CHECK (got == x.second, "vertex-list", "vertex %lld lists %zu corners instead of %zu, or other ones", (long long) x.first, got.size (), x.second.size ());
        count ("vertex_lists");
      }
      /* the two tables built separately, and the one from the other */
      t8_cmesh_vertex_conn_vertex_to_tree vtt;
      std::vector<std::pair<t8_gloidx_t, std::pair<int, int>>> all;
      for (auto &x : inv)
        for (auto &e : x.second)
          all.push_back ({ x.first, e });
      for (size_t i = all.size (); i > 1; --i)
        std::swap (all[i - 1], all[r.below (i)]);
      for (auto &e : all)
        vtt.add_vertex_to_tree (c, e.first, e.second.first, e.second.second);
      vtt.commit (c);
      size_t nit = 0;
      for (auto &x : inv) {
        auto &l = vtt.get_tree_list_of_vertex (x.first);
        std::vector<std::pair<int, int>> got;
        for (auto &e : l)
          got.push_back ({ (int) e.first, (int) e.second });
        VF_CHECK (got == x.second, "vtt-list", "vertex %lld: separately built list differs", (long long) x.first);
        ++nit;
      }
      t8_cmesh_t c2;
      t8_cmesh_init (&c2);
      t8_cmesh_vertex_conn_tree_to_vertex ttv (c, c2, vtt);
      for (int t = 0; t < g.n (); ++t)
        t8_cmesh_set_tree_class (c2, t, ec[t]);
      t8_cmesh_set_dimension (c2, g.dim);
      t8_cmesh_commit (c2, sc_MPI_COMM_SELF);
      for (int t = 0; t < g.n (); ++t) {
        auto s = ttv.get_global_vertices (c2, t);
        bool ok = s.size () == lab[t].size ();
        for (size_t i = 0; ok && i < lab[t].size (); ++i)
          ok = s[i] == lab[t][i] && ttv.get_global_vertex (c2, t, (int) i) == lab[t][i];
        VF_CHECK (ok, "ttv-from-vtt", "tree %d: vertex ids rebuilt from the inverse table differ", t);
      }
      t8_cmesh_destroy (&c2);
    }
    t8_cmesh_destroy (&c);
    VF_CHECK (held_blocks () == before, "leak", "%d blocks held, %d before", held_blocks (), before);
    if (st ().nviol)
      return;
  }
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  run_join ((i64) (opt_int ("n", 60) * st ().scale));
  return finish ();
}
