/* C24: the built-in coarse meshes.  Every constructor is run with random parameters, replicated and partitioned; the
 * resulting mesh is gathered and its topology compared with the geometry of its trees. */
#include "shapes.hxx"
#include <functional>
#include <t8_cmesh/t8_cmesh.h>
#include <t8_cmesh/t8_cmesh_examples.h>
#include <t8_cmesh/t8_cmesh_geometry.hxx>
#include <t8_geometry/t8_geometry.h>
#include <p4est_connectivity.h>
#include <p8est_connectivity.h>

using namespace vf;
typedef std::array<double, 3> D3;

struct Case
{
  std::string name;
  std::vector<D3> periods;
  i64 ntrees = -1;
  std::map<int, i64> cls;   /* expected number of trees per class (empty: not promised) */
  double volume = -1;       /* expected total size */
  double vtol = 1e-9;
  bool geom = true;         /* has a geometry in which joined faces coincide */
  bool complete = true;     /* and all coinciding faces are joined */
  bool volsign = true;
  std::vector<int> p4_ttt, p4_ttf; /* the connectivity it was made from */
  std::function<void (t8_cmesh_t &, int)> make; /* partition flag */
  bool can_partition = false;
};

struct Tree
{
  i64 gid = -1;
  int cls = 0;
  i64 nb[6];
  int df[6], ori[6];
  D3 x[8];           /* corners */
  double vol = 0, mindet = 0;
  std::vector<D3> fp; /* 3 points per face, with the weights W of the face's corners */
};

/* corner weights of sample points of a face with n corners (bilinear in z-order for quads) */
static void
face_weights (int n, int k, double *w)
{
  const double u[3][2] = { { 0.31, 0.17 }, { 0.12, 0.7 }, { 0.5, 0.05 } };
  const double a = u[k][0], b = u[k][1];
  if (n == 1)
    w[0] = 1;
  else if (n == 2) {
    w[0] = 1 - a;
    w[1] = a;
  }
  else if (n == 3) {
    w[0] = 1 - a - b;
    w[1] = a;
    w[2] = b;
  }
  else {
    w[0] = (1 - a) * (1 - b);
    w[1] = a * (1 - b);
    w[2] = (1 - a) * b;
    w[3] = a * b;
  }
}
static D3
face_ref (int cls, int f, const double *w, const int *perm)
{
  D3 p = { 0, 0, 0 };
  for (int i = 0; i < face_nv (cls, f); ++i)
    for (int d = 0; d < 3; ++d)
      p[d] += w[i] * S_REF[cls][S_FV[cls][f][perm ? perm[i] : i]][d];
  return p;
}
static D3
eval (t8_cmesh_t c, t8_gloidx_t g, const D3 &ref)
{
  D3 o;
  t8_geometry_evaluate (c, g, ref.data (), 1, o.data ());
  return o;
}
/* quadrature points of a reference shape: tensor points collapsed onto the shape, with weights */
static std::vector<std::pair<D3, double>>
quadrature (int cls)
{
  static const double gp[4] = { 0.06943184420297371, 0.33000947820757187, 0.6699905217924281, 0.9305681557970262 };
  static const double gw[4] = { 0.17392742256872692, 0.32607257743127307, 0.32607257743127307, 0.17392742256872692 };
  std::vector<std::pair<D3, double>> q;
  const int dim = S_DIM[cls];
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < (dim > 1 ? 4 : 1); ++j)
      for (int k = 0; k < (dim > 2 ? 4 : 1); ++k) {
        double a = gp[i], b = gp[j], c = gp[k], w = gw[i] * (dim > 1 ? gw[j] : 1) * (dim > 2 ? gw[k] : 1);
        D3 p;
        switch (cls) {
        case LINE:
          p = { a, 0, 0 };
          break;
        case QUAD:
          p = { a, b, 0 };
          break;
        case TRI: /* 0 <= y <= x <= 1 */
          p = { a, a * b, 0 };
          w *= a;
          break;
        case HEX:
          p = { a, b, c };
          break;
        case TET: /* 0 <= y <= z <= x */
          p = { a, a * b * c, a * b };
          w *= a * a * b;
          break;
        case PRISM:
          p = { a, a * b, c };
          w *= a;
          break;
        default: /* pyramid: z <= x, y <= 1 */
          p = { c + (1 - c) * a, c + (1 - c) * b, c };
          w *= (1 - c) * (1 - c);
        }
        q.push_back ({ p, w });
      }
  return q;
}

static std::vector<Tree>
gather (t8_cmesh_t c, const Case &cs, bool evaluate)
{
  std::vector<double> buf;
  const t8_locidx_t n = t8_cmesh_get_num_local_trees (c);
  for (t8_locidx_t t = 0; t < n; ++t) {
    const t8_gloidx_t g = t8_cmesh_get_global_id (c, t);
    const int k = t8_cmesh_get_tree_class (c, t);
    buf.push_back ((double) g);
    buf.push_back (k);
    for (int f = 0; f < 6; ++f) {
      int df = -1, o = -1;
      t8_locidx_t nb = -1;
      if (f < S_NF[k])
        nb = t8_cmesh_get_face_neighbor (c, t, f, &df, &o);
      buf.push_back (nb < 0 ? -1.0 : (double) t8_cmesh_get_global_id (c, nb));
      buf.push_back (nb < 0 ? -1 : df);
      buf.push_back (nb < 0 ? -1 : o);
    }
    for (int i = 0; i < 8; ++i) {
      D3 x = { 0, 0, 0 };
      if (evaluate && i < S_NV[k])
        x = eval (c, g, D3 { (double) S_REF[k][i][0], (double) S_REF[k][i][1], (double) S_REF[k][i][2] });
      for (double v : x)
        buf.push_back (v);
    }
    double vol = 0, mind = 1e300;
    const int dim = S_DIM[k];
    if (evaluate && dim > 0) {
      for (auto &q : quadrature (k)) {
        const double h = 1e-5;
        D3 col[3];
        for (int d = 0; d < dim; ++d) {
          D3 a = q.first, b = q.first;
          a[d] -= h;
          b[d] += h;
          D3 xa = eval (c, g, a), xb = eval (c, g, b);
          for (int e = 0; e < 3; ++e)
            col[d][e] = (xb[e] - xa[e]) / (2 * h);
        }
        double m;
        if (dim == 1)
          m = std::sqrt (col[0][0] * col[0][0] + col[0][1] * col[0][1] + col[0][2] * col[0][2]);
        else {
          D3 x = { col[0][1] * col[1][2] - col[0][2] * col[1][1], col[0][2] * col[1][0] - col[0][0] * col[1][2],
                   col[0][0] * col[1][1] - col[0][1] * col[1][0] };
          if (dim == 2)
            m = std::sqrt (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
          else
            m = x[0] * col[2][0] + x[1] * col[2][1] + x[2] * col[2][2];
        }
        vol += m * q.second;
        mind = std::min (mind, m);
      }
    }
    buf.push_back (vol);
    buf.push_back (mind);
    for (int f = 0; f < 6; ++f)
      for (int s = 0; s < 3; ++s) {
        D3 x = { 0, 0, 0 };
        if (evaluate && f < S_NF[k]) {
          double w[4];
          face_weights (face_nv (k, f), s, w);
          x = eval (c, g, face_ref (k, f, w, NULL));
        }
        for (double v : x)
          buf.push_back (v);
      }
  }
  const int rec = 2 + 18 + 24 + 2 + 54;
  std::vector<int> cnt (st ().size), dis (st ().size + 1, 0);
  int mine = (int) buf.size ();
  MPI_Allgather (&mine, 1, MPI_INT, cnt.data (), 1, MPI_INT, st ().comm);
  for (int p = 0; p < st ().size; ++p)
    dis[p + 1] = dis[p] + cnt[p];
  std::vector<double> all (dis[st ().size] + 1);
  MPI_Allgatherv (buf.data (), mine, MPI_DOUBLE, all.data (), cnt.data (), dis.data (), MPI_DOUBLE, st ().comm);
  const i64 N = t8_cmesh_get_num_trees (c);
  std::vector<Tree> tr (N);
  for (int i = 0; i + rec <= dis[st ().size]; i += rec) {
    const double *b = &all[i];
    Tree t;
    t.gid = (i64) *b++;
    t.cls = (int) *b++;
    for (int f = 0; f < 6; ++f) {
      t.nb[f] = (i64) *b++;
      t.df[f] = (int) *b++;
      t.ori[f] = (int) *b++;
    }
    for (int k = 0; k < 8; ++k)
      for (int d = 0; d < 3; ++d)
        t.x[k][d] = *b++;
    t.vol = *b++;
    t.mindet = *b++;
    t.fp.resize (18);
    for (auto &p : t.fp)
      for (int d = 0; d < 3; ++d)
        p[d] = *b++;
    if (t.gid < 0 || t.gid >= N) {
      viol ("tree-id", "tree id %lld of %lld", (long long) t.gid, (long long) N);
      continue;
    }
    Tree &o = tr[t.gid];
    if (o.gid >= 0) {
      bool same = o.cls == t.cls;
      for (int f = 0; f < S_NF[t.cls]; ++f)
        same = same && o.nb[f] == t.nb[f] && o.df[f] == t.df[f] && o.ori[f] == t.ori[f];
      for (int k = 0; k < 8; ++k)
        same = same && o.x[k] == t.x[k];
      VF_CHECK (same, "copies-differ", "two processes hold different versions of tree %lld", (long long) t.gid);
    }
    o = t;
  }
  for (i64 g = 0; g < N; ++g)
    VF_CHECK (tr[g].gid == g, "tree-missing", "no process has tree %lld of %lld", (long long) g, (long long) N);
  return tr;
}

static double
dist (const D3 &a, const D3 &b)
{
  return std::sqrt ((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]));
}
static int
rank_of (int cls)
{
  switch (cls) {
  case TRI:
    return 0;
  case QUAD:
    return 1;
  case TET:
  case HEX:
    return 2;
  case PRISM:
    return 3;
  default:
    return 4;
  }
}

struct Matcher
{
  const Case &cs;
  double tol;
  bool
  lattice (const D3 &T) const
  {
    D3 z = { 0, 0, 0 };
    if (dist (T, z) < tol)
      return true;
    const int n = (int) cs.periods.size ();
    if (n == 0)
      return false;
    int lo[3] = { 0, 0, 0 }, hi[3] = { 0, 0, 0 };
    for (int i = 0; i < n; ++i) {
      lo[i] = -1;
      hi[i] = 1;
    }
    for (int a = lo[0]; a <= hi[0]; ++a)
      for (int b = lo[1]; b <= hi[1]; ++b)
        for (int c = lo[2]; c <= hi[2]; ++c) {
          D3 p = { 0, 0, 0 };
          const int k[3] = { a, b, c };
          for (int i = 0; i < n; ++i)
            for (int d = 0; d < 3; ++d)
              p[d] += k[i] * cs.periods[i][d];
          if (dist (p, T) < tol)
            return true;
        }
    return false;
  }
  /* corner i of face f of a is corner perm[i] of face g of b, after a shift by a lattice vector */
  bool
  match (const Tree &a, int f, const Tree &b, int g, int *perm, D3 &T) const
  {
    const int n = face_nv (a.cls, f);
    if (n != face_nv (b.cls, g))
      return false;
    D3 ca = { 0, 0, 0 }, cb = { 0, 0, 0 };
    for (int i = 0; i < n; ++i)
      for (int d = 0; d < 3; ++d) {
        ca[d] += a.x[S_FV[a.cls][f][i]][d] / n;
        cb[d] += b.x[S_FV[b.cls][g][i]][d] / n;
      }
    for (int d = 0; d < 3; ++d)
      T[d] = cb[d] - ca[d];
    if (!lattice (T))
      return false;
    int used = 0;
    for (int i = 0; i < n; ++i) {
      D3 p = a.x[S_FV[a.cls][f][i]];
      for (int d = 0; d < 3; ++d)
        p[d] += T[d];
      perm[i] = -1;
      for (int j = 0; j < n; ++j)
        if (!(used >> j & 1) && dist (p, b.x[S_FV[b.cls][g][j]]) < tol) {
          perm[i] = j;
          used |= 1 << j;
          break;
        }
      if (perm[i] < 0)
        return false;
    }
    return true;
  }
};

static void
check_mesh (t8_cmesh_t c, const Case &cs, const std::vector<Tree> &tr)
{
  const i64 N = (i64) tr.size ();
  const char *nm = cs.name.c_str ();
  if (cs.ntrees >= 0)
    VF_CHECK (N == cs.ntrees, "num-trees", "%s has %lld trees instead of %lld", nm, (long long) N, (long long) cs.ntrees);
  std::map<int, i64> have;
  double vol = 0, ext = 0;
  D3 lo = { 1e300, 1e300, 1e300 }, hi = { -1e300, -1e300, -1e300 };
  for (auto &t : tr) {
    if (t.gid < 0)
      return;
    ++have[t.cls];
    vol += t.vol;
    for (int i = 0; i < S_NV[t.cls]; ++i)
      for (int d = 0; d < 3; ++d) {
        lo[d] = std::min (lo[d], t.x[i][d]);
        hi[d] = std::max (hi[d], t.x[i][d]);
      }
  }
  for (int d = 0; d < 3; ++d)
    ext = std::max (ext, hi[d] - lo[d]);
  for (auto &k : cs.cls)
    VF_CHECK (have[k.first] == k.second, "num-class", "%s has %lld trees of class %s instead of %lld", nm, (long long) have[k.first], S_NAME[k.first],
              (long long) k.second);
  for (int k = 0; k < 8; ++k)
    VF_CHECK (t8_cmesh_get_num_trees (c) == N, "num-trees", "%s", nm);
  /* symmetric connectivity */
  for (auto &t : tr)
    for (int f = 0; f < S_NF[t.cls]; ++f) {
      count ("faces");
      if (t.nb[f] < 0)
        continue;
      count ("joined_faces");
      if (t.nb[f] >= N || t.df[f] < 0 || t.df[f] >= S_NF[tr[t.nb[f]].cls]) {
        viol ("join-range", "%s: tree %lld face %d is joined to tree %lld face %d", nm, (long long) t.gid, f, (long long) t.nb[f], t.df[f]);
        return;
      }
      const Tree &u = tr[t.nb[f]];
      const int g = t.df[f];
      VF_CHECK (u.nb[g] == t.gid && u.df[g] == f && u.ori[g] == t.ori[f], "join-symmetry",
                "%s: tree %lld face %d is joined to tree %lld face %d orientation %d, but that one to tree %lld face %d orientation %d", nm,
                (long long) t.gid, f, (long long) u.gid, g, t.ori[f], (long long) u.nb[g], u.df[g], u.ori[g]);
      VF_CHECK (face_nv (t.cls, f) == face_nv (u.cls, g), "join-shape", "%s: tree %lld face %d (%d corners) is joined to tree %lld face %d (%d corners)", nm,
                (long long) t.gid, f, face_nv (t.cls, f), (long long) u.gid, g, face_nv (u.cls, g));
    }
  if (!cs.p4_ttt.empty ())
    for (auto &t : tr)
      for (int f = 0; f < S_NF[t.cls]; ++f) {
        const int nf = S_NF[t.cls], k = (int) t.gid * nf + f;
        const bool bnd = cs.p4_ttt[k] == t.gid && cs.p4_ttf[k] == f;
        count ("p4_faces");
        VF_CHECK (bnd ? t.nb[f] < 0 : (t.nb[f] == cs.p4_ttt[k] && t.df[f] == cs.p4_ttf[k] % nf && t.ori[f] == cs.p4_ttf[k] / nf), "p4est-conn",
                  "%s: tree %lld face %d is joined to tree %lld face %d orientation %d; the connectivity says tree %d face %d orientation %d", nm,
                  (long long) t.gid, f, (long long) t.nb[f], t.df[f], t.ori[f], bnd ? -1 : cs.p4_ttt[k], cs.p4_ttf[k] % nf, cs.p4_ttf[k] / nf);
      }
  if (!cs.geom)
    return;
  Matcher M { cs, 1e-8 * ext };
  const double ptol = (cs.vtol > 1e-6 ? 1e-7 : 1e-9) * ext;
  for (auto &t : tr) {
    if (S_DIM[t.cls] > 0)
      VF_CHECK (t.mindet > 0 && t.vol > 0, "volume-sign", "%s: tree %lld (%s) has volume %g, smallest Jacobian determinant %g", nm, (long long) t.gid,
                S_NAME[t.cls], t.vol, t.mindet);
    for (int f = 0; f < S_NF[t.cls]; ++f) {
      int perm[4];
      D3 T;
      if (t.nb[f] < 0)
        continue;
      const Tree &u = tr[t.nb[f]];
      const int g = t.df[f];
      if (!M.match (t, f, u, g, perm, T)) {
        viol ("faces-apart", "%s: tree %lld face %d and tree %lld face %d are joined but their corners do not coincide", nm, (long long) t.gid, f,
              (long long) u.gid, g);
        continue;
      }
      const int n = face_nv (t.cls, f);
      /* orientation: corner of the other face that corner 0 of the first face meets */
      const bool tmain = t.cls == u.cls ? f <= g : rank_of (t.cls) < rank_of (u.cls);
      int o = -1;
      if (tmain)
        o = perm[0];
      else
        for (int i = 0; i < n; ++i)
          if (perm[i] == 0)
            o = i;
      VF_CHECK (o == t.ori[f], "orientation", "%s: tree %lld face %d to tree %lld face %d has orientation %d, the corners say %d", nm, (long long) t.gid, f,
                (long long) u.gid, g, t.ori[f], o);
      /* inner points */
      count ("face_points", 3);
      for (int s = 0; s < 3; ++s) {
        double w[4], wu[4];
        face_weights (n, s, w);
        (void) wu;
        D3 here = t.fp[f * 3 + s], there;
        /* replicated meshes only: every process can evaluate every tree */
        if (t8_cmesh_is_partitioned (c))
          continue;
        there = eval (c, u.gid, face_ref (u.cls, g, w, perm));
        for (int d = 0; d < 3; ++d)
          here[d] += T[d];
        VF_CHECK (dist (here, there) < ptol, "face-points", "%s: a point of tree %lld face %d lies %g away from the same point of tree %lld face %d", nm,
                  (long long) t.gid, f, dist (here, there), (long long) u.gid, g);
      }
    }
  }
  if (cs.volume >= 0)
    VF_CHECK (std::fabs (vol - cs.volume) <= cs.vtol * cs.volume, "volume", "%s has total size %.12g instead of %.12g", nm, vol, cs.volume);
  /* coinciding faces are joined */
  if (cs.complete && N <= 400) {
    std::vector<std::pair<int, int>> open;
    for (auto &t : tr)
      for (int f = 0; f < S_NF[t.cls]; ++f)
        if (t.nb[f] < 0)
          open.push_back ({ (int) t.gid, f });
    for (size_t i = 0; i < open.size (); ++i)
      for (size_t j = 0; j < open.size (); ++j) {
        int perm[4];
        D3 T;
        if (i != j && M.match (tr[open[i].first], open[i].second, tr[open[j].first], open[j].second, perm, T))
          viol ("not-joined", "%s: tree %d face %d and tree %d face %d coincide but are not joined", nm, open[i].first, open[i].second, open[j].first,
                open[j].second);
      }
    count ("open_faces", open.size ());
  }
}

/* discrete choices go round instead of being drawn, starting anywhere, so that each run sees as many as it can */
static int
choose (Rng &r, int slot, int last)
{
  static std::map<int, int> at;
  auto x = at.find (slot);
  if (x == at.end ())
    x = at.emplace (slot, (int) (comb (comb (st ().seed, 77), slot) % 1000003)).first;
  (void) r.next ();
  /* the stride is prime to all small numbers of choices, so choices of different slots do not move in step */
  return (x->second += slot % 3 == 0 ? 11 : slot % 3 == 1 ? 13 : 17) % (last + 1);
}

static void
p4_case (Rng &r, Case &cs)
{
  const int dim = r.range (2, 3);
  cs.geom = false;
  cs.can_partition = true;
  if (dim == 2) {
    const int k = choose (r, 1, 9);
    const int a = r.range (1, 4), b = r.range (1, 4), pa = r.range (0, 1), pb = r.range (0, 1);
    auto mk = [=] () -> p4est_connectivity_t * {
      switch (k) {
      case 0:
        return p4est_connectivity_new_unitsquare ();
      case 1:
        return p4est_connectivity_new_periodic ();
      case 2:
        return p4est_connectivity_new_rotwrap ();
      case 3:
        return p4est_connectivity_new_corner ();
      case 4:
        return p4est_connectivity_new_pillow ();
      case 5:
        return p4est_connectivity_new_moebius ();
      case 6:
        return p4est_connectivity_new_star ();
      case 7:
        return p4est_connectivity_new_cubed ();
      case 8:
        return p4est_connectivity_new_disk (pa, pb);
      default:
        return p4est_connectivity_new_brick (a, b, pa, pb);
      }
    };
    p4est_connectivity_t *q = mk ();
    cs.name = fmt ("p4est conn %d %d %d %d %d", k, a, b, pa, pb);
    cs.ntrees = q->num_trees;
    cs.cls[QUAD] = q->num_trees;
    for (int i = 0; i < 4 * q->num_trees; ++i) {
      cs.p4_ttt.push_back (q->tree_to_tree[i]);
      cs.p4_ttf.push_back (q->tree_to_face[i]);
    }
    p4est_connectivity_destroy (q);
    cs.make = [=] (t8_cmesh_t &c, int part) {
      p4est_connectivity_t *x = mk ();
      t8_cmesh_new_from_p4est (c, x, st ().comm, part);
      p4est_connectivity_destroy (x);
    };
  }
  else {
    const int k = choose (r, 2, 7);
    const int a = r.range (1, 3), b = r.range (1, 3), d = r.range (1, 3), pa = r.range (0, 1), pb = r.range (0, 1), pc = r.range (0, 1);
    auto mk = [=] () -> p8est_connectivity_t * {
      switch (k) {
      case 0:
        return p8est_connectivity_new_unitcube ();
      case 1:
        return p8est_connectivity_new_periodic ();
      case 2:
        return p8est_connectivity_new_rotwrap ();
      case 3:
        return p8est_connectivity_new_twocubes ();
      case 4:
        return p8est_connectivity_new_rotcubes ();
      case 5:
        return p8est_connectivity_new_shell ();
      case 6:
        return p8est_connectivity_new_sphere ();
      default:
        return p8est_connectivity_new_brick (a, b, d, pa, pb, pc);
      }
    };
    p8est_connectivity_t *q = mk ();
    cs.name = fmt ("p8est conn %d %d %d %d %d %d %d", k, a, b, d, pa, pb, pc);
    cs.ntrees = q->num_trees;
    cs.cls[HEX] = q->num_trees;
    for (int i = 0; i < 6 * q->num_trees; ++i) {
      cs.p4_ttt.push_back (q->tree_to_tree[i]);
      cs.p4_ttf.push_back (q->tree_to_face[i]);
    }
    p8est_connectivity_destroy (q);
    cs.make = [=] (t8_cmesh_t &c, int part) {
      p8est_connectivity_t *x = mk ();
      t8_cmesh_new_from_p8est (c, x, st ().comm, part);
      p8est_connectivity_destroy (x);
    };
  }
}

static const int PER_CUBE[8] = { 1, 1, 1, 2, 1, 6, 2, 3 };

static Case
random_case (Rng &r, int kind)
{
  Case cs;
  MPI_Comm comm = st ().comm;
  switch (kind) {
  case 0: { /* hypercube */
    const int k = choose (r, 3, 7);
    const int bc = r.range (0, 1), per = k == PYR ? 0 : r.range (0, 1);
    cs.name = fmt ("hypercube %s bcast %d periodic %d", S_NAME[k], bc, per);
    cs.ntrees = PER_CUBE[k];
    cs.cls[k] = PER_CUBE[k];
    if (k != VERTEX)
      cs.volume = 1;
    for (int d = 0; per && d < S_DIM[k]; ++d)
      cs.periods.push_back (D3 { d == 0 ? 1. : 0., d == 1 ? 1. : 0., d == 2 ? 1. : 0. });
    cs.can_partition = !bc;
    cs.make = [=] (t8_cmesh_t &c, int part) { t8_cmesh_new_hypercube (&c, (t8_eclass_t) k, comm, bc, part, per); };
    break;
  }
  case 1: { /* hypercube_pad */
    const int k = choose (r, 6, 6), dim = S_DIM[k];
    int n[3] = { r.range (1, 4), r.range (1, 4), r.range (1, 4) };
    for (int d = dim; d < 3; ++d)
      n[d] = 1;
    if (k == TET)
      for (int &x : n)
        x = std::min (x, 3);
    int per[3] = { 0, 0, 0 };
    const bool ext = r.chance (0.7);
    if (ext)
      for (int d = 0; d < dim; ++d)
        per[d] = r.chance (0.4);
    const int aa = (k == LINE || k == QUAD || k == HEX) && r.chance (0.4);
    /* a box, or (not axis-aligned) a sheared parallelepiped */
    D3 o = { r.uniform (-3, 3), r.uniform (-3, 3), r.uniform (-3, 3) }, e[3];
    const bool shear = !aa && r.chance (0.6);
    for (int d = 0; d < 3; ++d)
      for (int x = 0; x < 3; ++x)
        e[d][x] = d == x ? r.uniform (0.3, 4) : shear && x < dim ? r.uniform (-0.1, 0.1) : 0;
    if (dim < 3)
      o[2] = shear ? o[2] : 0;
    std::vector<double> bd;
    for (int i = 0; i < (1 << dim); ++i)
      for (int x = 0; x < 3; ++x) {
        double v = o[x];
        for (int d = 0; d < dim; ++d)
          if (i >> d & 1)
            v += e[d][x];
        bd.push_back (v);
      }
    cs.volume = dim == 0 ? -1 : dim == 1 ? std::sqrt (e[0][0] * e[0][0] + e[0][1] * e[0][1] + e[0][2] * e[0][2]) : 0;
    if (dim >= 2) {
      D3 x = { e[0][1] * e[1][2] - e[0][2] * e[1][1], e[0][2] * e[1][0] - e[0][0] * e[1][2], e[0][0] * e[1][1] - e[0][1] * e[1][0] };
      cs.volume = dim == 2 ? std::sqrt (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) : x[0] * e[2][0] + x[1] * e[2][1] + x[2] * e[2][2];
    }
    cs.ntrees = (i64) n[0] * n[1] * n[2] * PER_CUBE[k];
    cs.cls[k] = cs.ntrees;
    for (int d = 0; d < dim; ++d)
      if (per[d])
        cs.periods.push_back (e[d]);
    cs.name = fmt ("hypercube_pad%s %s %d x %d x %d periodic %d%d%d axis-aligned %d sheared %d", ext ? "_ext" : "", S_NAME[k], n[0], n[1], n[2], per[0], per[1],
                   per[2], aa, shear);
    cs.can_partition = ext;
    const int n0 = n[0], n1 = n[1], n2 = n[2], p0 = per[0], p1 = per[1], p2 = per[2];
    cs.make = [=] (t8_cmesh_t &c, int part) {
      if (ext)
        t8_cmesh_new_hypercube_pad_ext (c, (t8_eclass_t) k, comm, bd.data (), n0, n1, n2, p0, p1, p2, aa, part, 0);
      else
        t8_cmesh_new_hypercube_pad (c, (t8_eclass_t) k, comm, bd.data (), n0, n1, n2, aa);
    };
    break;
  }
  case 2: { /* bricks */
    const int n[3] = { r.range (1, 5), r.range (1, 5), r.range (1, 4) }, p[3] = { r.range (0, 1), r.range (0, 1), r.range (0, 1) }, dim = 2 + r.range (0, 1);
    cs.name = fmt ("brick_%dd %d %d %d periodic %d%d%d", dim, n[0], n[1], n[2], p[0], p[1], p[2]);
    cs.ntrees = n[0] * n[1] * (dim == 3 ? n[2] : 1);
    cs.volume = (double) cs.ntrees;
    cs.cls[dim == 3 ? HEX : QUAD] = cs.ntrees;
    for (int d = 0; d < dim; ++d)
      if (p[d])
        cs.periods.push_back (D3 { d == 0 ? n[0] * 1. : 0., d == 1 ? n[1] * 1. : 0., d == 2 ? n[2] * 1. : 0. });
    const int a = n[0], b = n[1], d = n[2], x = p[0], y = p[1], z = p[2];
    cs.make = [=] (t8_cmesh_t &c, int) {
      if (dim == 2)
        t8_cmesh_new_brick_2d (c, a, b, x, y, comm);
      else
        t8_cmesh_new_brick_3d (c, a, b, d, x, y, z, comm);
    };
    break;
  }
  case 3: { /* disjoint bricks: one per process, all with the lower left corner at the origin */
    const int dim = 2 + r.range (0, 1), px = r.range (0, 1), py = r.range (0, 1), pz = r.range (0, 1);
    std::vector<std::array<int, 3>> sz;
    cs.ntrees = 0;
    const bool empties = r.chance (0.4);
    for (int p = 0; p < st ().size; ++p) {
      std::array<int, 3> s = { r.range (1, 3), r.range (1, 3), dim == 3 ? r.range (1, 3) : 0 };
      if (empties && r.chance (0.4))
        s[0] = s[1] = 0;
      sz.push_back (s);
      cs.ntrees += s[0] * s[1] * (dim == 3 ? s[2] : 1);
    }
    if (cs.ntrees == 0) {
      sz[0] = { 1, 1, dim == 3 ? 1 : 0 };
      cs.ntrees = 1;
    }
    cs.cls[dim == 3 ? HEX : QUAD] = cs.ntrees;
    cs.volume = (double) cs.ntrees;
    /* each brick against its own model */
    i64 off = 0;
    const int nf = 2 * dim;
    for (auto &s : sz) {
      const int n2 = dim == 3 ? s[2] : 1, n[3] = { s[0], s[1], n2 }, pe[3] = { px, py, pz };
      for (int k = 0; k < n2; ++k)
        for (int j = 0; j < s[1]; ++j)
          for (int i = 0; i < s[0]; ++i)
            for (int f = 0; f < nf; ++f) {
              int x[3] = { i, j, k };
              const int ax = f / 2;
              x[ax] += f % 2 ? 1 : -1;
              bool bnd = false;
              if (x[ax] < 0 || x[ax] >= n[ax]) {
                bnd = !pe[ax];
                x[ax] = (x[ax] + n[ax]) % n[ax];
              }
              const i64 self = off + i + (i64) s[0] * (j + (i64) s[1] * k);
              cs.p4_ttt.push_back ((int) (bnd ? self : off + x[0] + (i64) s[0] * (x[1] + (i64) s[1] * x[2])));
              cs.p4_ttf.push_back (bnd ? f : f ^ 1);
            }
      off += (i64) s[0] * s[1] * n2;
    }
    cs.geom = false;
    const std::array<int, 3> my = sz[st ().rank];
    std::string d;
    for (auto &s : sz)
      d += fmt (" %dx%dx%d", s[0], s[1], s[2]);
    cs.name = fmt ("disjoint_bricks periodic %d%d%d:", px, py, pz) + d;
    cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_disjoint_bricks (c, my[0], my[1], my[2], px, py, pz, comm); };
    break;
  }
  case 4: {
    const int dim = r.range (1, 3);
    cs.name = fmt ("periodic %d", dim);
    cs.ntrees = 1;
    cs.volume = 1;
    for (int d = 0; d < dim; ++d)
      cs.periods.push_back (D3 { d == 0 ? 1. : 0., d == 1 ? 1. : 0., d == 2 ? 1. : 0. });
    cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_periodic (c, comm, dim); };
    break;
  }
  case 5: {
    const int k = choose (r, 13, 3);
    cs.volume = 1;
    cs.periods = { D3 { 1, 0, 0 }, D3 { 0, 1, 0 } };
    if (k == 0) {
      cs.name = "periodic_tri";
      cs.ntrees = 2;
      cs.cls[TRI] = 2;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_periodic_tri (c, comm); };
    }
    else if (k == 1) {
      cs.name = "periodic_hybrid";
      cs.ntrees = 6;
      cs.cls = { { TRI, 4 }, { QUAD, 2 } };
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_periodic_hybrid (c, comm); };
    }
    else if (k == 2) {
      cs.name = "periodic_line_more_trees";
      cs.periods = { D3 { 1, 0, 0 } };
      cs.ntrees = 3;
      cs.cls[LINE] = 3;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_periodic_line_more_trees (c, comm); };
    }
    else {
      const int per = r.range (0, 1);
      cs.name = fmt ("hypercube_hybrid periodic %d", per);
      cs.periods.clear ();
      if (per)
        cs.periods = { D3 { 1, 0, 0 }, D3 { 0, 1, 0 }, D3 { 0, 0, 1 } };
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_hypercube_hybrid (c, comm, per); };
    }
    break;
  }
  case 6: {
    const int n = r.range (3, 20), k = choose (r, 15, 6);
    cs.volume = -1;
    switch (k) {
    case 0:
      cs.name = fmt ("prism_cake %d", n);
      cs.ntrees = n;
      cs.cls[PRISM] = n;
      cs.volume = n * 0.5 * std::sin (2 * M_PI / n);
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_prism_cake (c, comm, n); };
      break;
    case 1:
      cs.name = fmt ("pyramid_cake %d", n);
      cs.ntrees = n;
      cs.cls[PYR] = n;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_pyramid_cake (c, comm, n); };
      break;
    case 2:
      cs.name = fmt ("long_brick_pyramid %d", n);
      cs.ntrees = 3 * n;
      cs.cls[PYR] = 3 * n;
      cs.volume = n;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_long_brick_pyramid (c, comm, n); };
      break;
    case 3: {
      const int at = r.range (0, 1);
      cs.name = fmt ("row_of_cubes %d attributes %d", n, at);
      cs.ntrees = n;
      cs.cls[HEX] = n;
      cs.volume = n;
      cs.can_partition = true;
      cs.make = [=] (t8_cmesh_t &c, int part) { t8_cmesh_new_row_of_cubes (c, n, at, part, comm, sc_package_id); };
      break;
    }
    case 4: {
      const int e = choose (r, 17, 7);
      cs.name = fmt ("bigmesh %s %d", S_NAME[e], n);
      cs.ntrees = n;
      cs.cls[e] = n;
      cs.geom = false;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_bigmesh (c, (t8_eclass_t) e, n, comm); };
      break;
    }
    case 5: {
      const int e = choose (r, 18, 7);
      const double v[8] = { -1, 1, 1, 0.5, 1, -1 /* not the unit one */, 0.5, 1 / 3. };
      cs.name = fmt ("from_class %s", S_NAME[e]);
      cs.ntrees = 1;
      cs.cls[e] = 1;
      cs.volume = v[e];
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_from_class (c, (t8_eclass_t) e, comm); };
      break;
    }
    default: {
      const int ed = r.range (0, 3);
      cs.name = "empty";
      cs.ntrees = 0;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_set_dimension (c, ed);
        t8_cmesh_new_empty (c, comm); };
    }
    }
    break;
  }
  case 7: {
    const int k = choose (r, 20, 9);
    switch (k) {
    case 0:
      cs.name = "line_zigzag";
      cs.ntrees = 3;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_line_zigzag (c, comm); };
      break;
    case 1:
      cs.name = "prism_deformed";
      cs.ntrees = 1;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_prism_deformed (c, comm); };
      break;
    case 2:
      cs.name = "pyramid_deformed";
      cs.ntrees = 1;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_pyramid_deformed (c, comm); };
      break;
    case 3:
      cs.name = "prism_cake_funny_oriented";
      cs.ntrees = 6;
      cs.cls[PRISM] = 6;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_prism_cake_funny_oriented (c, comm); };
      break;
    case 4:
      cs.name = "prism_geometry";
      cs.ntrees = 8;
      cs.cls[PRISM] = 8;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_prism_geometry (c, comm); };
      break;
    case 5:
      cs.name = "tet_orientation_test"; /* one pair of tetrahedra per face connection; no common geometry is promised */
      cs.ntrees = 24;
      cs.cls[TET] = 24;
      cs.geom = false;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_tet_orientation_test (c, comm); };
      break;
    case 6:
      cs.name = "hybrid_gate";
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_hybrid_gate (c, comm); };
      break;
    case 7:
      cs.name = "hybrid_gate_deformed";
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_hybrid_gate_deformed (c, comm); };
      break;
    default:
      cs.name = "full_hybrid";
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_full_hybrid (c, comm); };
    }
    break;
  }
  case 8: {
    const int k = choose (r, 21, 8);
    const double R = r.chance (0.3) ? 1 : r.uniform (0.1, 50), th = r.uniform (0.05, 2) * R, A = 4 * M_PI * R * R,
                 V = 4. / 3 * M_PI * ((R + th) * (R + th) * (R + th) - R * R * R);
    const int lv = r.range (0, 2), ly = r.range (1, 4), nt = r.range (1, 4);
    cs.vtol = 0.01;
    switch (k) {
    case 0:
      cs.name = fmt ("quadrangulated_disk %.17g", R);
      cs.volume = M_PI * R * R;
      cs.ntrees = 12;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_quadrangulated_disk (c, R, comm); };
      break;
    case 1:
      cs.name = fmt ("triangulated_spherical_surface_octahedron %.17g", R);
      cs.volume = A;
      cs.ntrees = 8;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_triangulated_spherical_surface_octahedron (c, R, comm); };
      break;
    case 2:
      cs.name = fmt ("triangulated_spherical_surface_icosahedron %.17g", R);
      cs.volume = A;
      cs.ntrees = 20;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_triangulated_spherical_surface_icosahedron (c, R, comm); };
      break;
    case 3:
      cs.name = fmt ("triangulated_spherical_surface_cube %.17g", R);
      cs.volume = A;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_triangulated_spherical_surface_cube (c, R, comm); };
      break;
    case 4:
      cs.name = fmt ("quadrangulated_spherical_surface %.17g", R);
      cs.volume = A;
      cs.ntrees = 6;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_quadrangulated_spherical_surface (c, R, comm); };
      break;
    case 5:
      cs.name = fmt ("prismed_spherical_shell_octahedron %.17g %.17g %d %d", R, th, lv, ly);
      cs.volume = V;
      cs.ntrees = (i64) 8 * (1 << (2 * lv)) * ly;
      cs.cls[PRISM] = cs.ntrees;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_prismed_spherical_shell_octahedron (c, R, th, lv, ly, comm); };
      break;
    case 6:
      cs.name = fmt ("prismed_spherical_shell_icosahedron %.17g %.17g %d %d", R, th, std::min (lv, 1), ly);
      cs.volume = V;
      cs.ntrees = (i64) 20 * (1 << (2 * std::min (lv, 1))) * ly;
      cs.cls[PRISM] = cs.ntrees;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_prismed_spherical_shell_icosahedron (c, R, th, std::min (lv, 1), ly, comm); };
      break;
    case 7:
      cs.name = fmt ("cubed_spherical_shell %.17g %.17g %d %d", R, th, nt, ly);
      cs.volume = V;
      cs.ntrees = (i64) 6 * nt * nt * ly;
      cs.cls[HEX] = cs.ntrees;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_cubed_spherical_shell (c, R, th, nt, ly, comm); };
      break;
    default:
      cs.name = fmt ("cubed_sphere %.17g", R);
      cs.volume = 4. / 3 * M_PI * R * R * R;
      cs.make = [=] (t8_cmesh_t &c, int) { t8_cmesh_new_cubed_sphere (c, R, comm); };
    }
    break;
  }
  default:
    p4_case (r, cs);
  }
  return cs;
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  p4est_init (NULL, SC_LP_ERROR);
  const i64 nc = opt_int ("n", 60);
  const int only = (int) opt_int ("kind", -1);
  Rng base (comb (st ().seed, 2401));
  for (i64 k = 0; k < nc; ++k) {
    Rng r (comb (base.next (), k));
    int kind = only >= 0 ? only : (int) (k % 14);
    if (kind >= 10)
      kind = kind == 10 ? 1 : kind == 11 ? 8 : kind == 12 ? 1 : 7;
    Case cs = random_case (r, kind);
    if (st ().only_case >= 0 && k != st ().only_case)
      continue;
    ctx ("case %lld %s", (long long) k, cs.name.c_str ());
    if (k < 4)
      sample (cs.name);
    count ("cases");
    seen ("constructors", hash_str (cs.name.substr (0, cs.name.find (' '))));
    seen ("cases", hash_str (cs.name));
    const int before = held_blocks ();
    std::vector<Tree> full;
    {
      t8_cmesh_t c;
      t8_cmesh_init (&c);
      cs.make (c, 0);
      VF_CHECK (t8_cmesh_is_committed (c), "committed", "%s", cs.name.c_str ());
      const bool has_geom = cs.geom && cs.ntrees != 0;
      full = gather (c, cs, has_geom && !t8_cmesh_is_partitioned (c));
      if (cs.ntrees != 0)
        check_mesh (c, cs, full);
      t8_cmesh_unref (&c);
      VF_CHECK (c == NULL, "handle", "%s: handle still set after the last reference", cs.name.c_str ());
    }
    if (cs.can_partition) {
      ctx ("case %lld partitioned %s", (long long) k, cs.name.c_str ());
      t8_cmesh_t c;
      t8_cmesh_init (&c);
      cs.make (c, 1);
      count ("partitioned");
      std::vector<Tree> part = gather (c, cs, cs.geom);
      VF_CHECK (part.size () == full.size (), "partition-size", "%s: %zu trees partitioned, %zu replicated", cs.name.c_str (), part.size (), full.size ());
      for (size_t g = 0; g < part.size () && g < full.size (); ++g) {
        const Tree &a = part[g], &b = full[g];
        bool same = a.cls == b.cls;
        for (int f = 0; same && f < S_NF[a.cls]; ++f)
          same = a.nb[f] == b.nb[f] && a.df[f] == b.df[f] && a.ori[f] == b.ori[f];
        for (int i = 0; cs.geom && same && i < S_NV[a.cls]; ++i)
          same = a.x[i] == b.x[i];
        VF_CHECK (same, "partition-differs", "%s: tree %zu of the partitioned mesh is not the one of the replicated mesh", cs.name.c_str (), g);
      }
      if (cs.ntrees != 0 && cs.geom)
        check_mesh (c, cs, part);
      t8_cmesh_unref (&c);
    }
    VF_CHECK (held_blocks () == before, "leak", "%s holds %d blocks after destruction", cs.name.c_str (), held_blocks () - before);
  }
  return finish ();
}
