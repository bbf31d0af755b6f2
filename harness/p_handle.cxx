/* C31: the mesh handle against the forest it wraps and against the model of that forest. */
#include "fcheck.hxx"
#include "geow.hxx"
#include <mesh_handle/mesh.hxx>
#include <mesh_handle/competence_pack.hxx>
#include <mesh_handle/constructor_wrappers.hxx>
#include <t8_cmesh/t8_cmesh_examples.h>
using namespace vf;
namespace mh = t8_mesh_handle;

static bool
my_violation ()
{
  return st ().nviol > 0;
}
static std::vector<int>
model_ghosts (Snap &S, int p)
{
  snap_adjacency (S);
  std::set<int> g;
  for (i64 i = S.off[p]; i < S.off[p + 1]; ++i)
    for (auto &a : S.adj[i])
      for (auto &b : a)
        if (b.leaf < S.off[p] || b.leaf >= S.off[p + 1])
          g.insert (b.leaf);
  return std::vector<int> (g.begin (), g.end ());
}
/* 13 bytes of payload and padding */
struct Item
{
  double d;
  int a;
  char c;
  bool
  operator== (const Item &o) const
  {
    return d == o.d && a == o.a && c == o.c;
  }
};
static Item
item_of (const Leaf &x, u64 salt)
{
  const u64 h = comb (comb (comb (salt, x.t), x.l), x.id);
  return Item { (double) (h >> 12), (int) (h & 0x7fffffff), (char) (h % 101) };
}

/* a competence of a user: remembers how often it was asked */
template <typename T>
struct my_competence: public t8_crtp_operator<T, my_competence>
{
  int
  twice_level () const
  {
    return 2 * this->underlying ().get_level ();
  }
};
using Plain = mh::mesh<>;
using Cached = mh::mesh<mh::all_cache_element_competences>;
using Full = mh::mesh<mh::union_competence_packs_type<mh::all_cache_element_competences, mh::data_element_competences, mh::cache_face_element_competences,
                                                     mh::element_competence_pack<my_competence>>,
                      mh::union_competence_packs_type<mh::data_mesh_competences<Item>, mh::dg_mesh_competences>>;
using Faces = mh::mesh<mh::cache_face_element_competences, mh::dg_mesh_competences>;
using Data = mh::mesh<mh::data_element_competences, mh::union_competence_packs_type<mh::dg_mesh_competences, mh::data_mesh_competences<double>>>;

struct View
{
  World *w;
  const GWorld *G;
  bool geo;             /* G describes the geometry */
  int ghost;            /* the forest has a ghost layer */
  std::vector<int> gh;  /* expected ghosts */
  i64
  index (int j) const
  {
    const Snap &S = w->S;
    if (j >= S.off[w->me] && j < S.off[w->me + 1])
      return j - S.off[w->me];
    auto it = std::lower_bound (gh.begin (), gh.end (), j);
    return it != gh.end () && *it == j ? S.nloc () + (it - gh.begin ()) : -1;
  }
  int
  leaf (i64 i) const
  {
    return (int) (i < w->S.nloc () ? w->S.off[w->me] + i : gh[i - w->S.nloc ()]);
  }
};
static bool
same3 (const t8_3D_vec &a, const double *b)
{
  return memcmp (a.data (), b, 3 * sizeof (double)) == 0;
}
static int
orient_of (const View &v, int gi, int fa)
{
  const Snap &S = v.w->S;
  const int k = root_face (v.w->m.m.cls[S.g[gi].t], S.geo[gi], fa);
  return k < 0 ? 0 : v.w->m.join[S.g[gi].t][k].orient;
}

template <class M>
static void
check_element (const View &v, const M &h, i64 i)
{
  using E = typename M::element_class;
  World &w = *v.w;
  Snap &S = w.S;
  const int gi = v.leaf (i);
  const E &e = h[(t8_locidx_t) i];
  t8_forest_t f = h.get_forest ();
  const t8_eclass_t ec = S.ec (gi);
  const std::string who = fmt ("element %lld (%s)", (long long) i, leaf_str (S.g[gi]).c_str ());
  const bool gho = i >= S.nloc ();
  count (gho ? "ghost_elements" : "elements");
  VF_CHECK (e.is_ghost_element () == gho, "is-ghost", "%s: is_ghost_element is %d", who.c_str (), e.is_ghost_element ());
  VF_CHECK (e.get_mesh () == &h, "mesh-pointer", "%s belongs to another mesh", who.c_str ());
  VF_CHECK (e.get_element_handle_id () == i, "handle-id", "%s: handle id %d", who.c_str (), e.get_element_handle_id ());
  const t8_locidx_t lt = e.get_local_tree_id ();
  const int nt = t8_forest_get_num_local_trees (f);
  VF_CHECK (gho ? lt >= nt && lt < nt + t8_forest_get_num_ghost_trees (f) : lt >= 0 && lt < nt, "tree-id", "%s: tree id %d of %d local trees", who.c_str (), lt, nt);
  if (my_violation ())
    return;
  VF_CHECK (t8_forest_global_tree_id (f, lt) == S.g[gi].t, "tree-id", "%s: tree %lld", who.c_str (), (long long) t8_forest_global_tree_id (f, lt));
  const t8_element_t *te = e.get_forest_element ();
  Leaf x = leaf_of (w.s, ec, te, S.g[gi].t, S.maxl);
  VF_CHECK (x.same (S.g[gi]), "element", "%s is %s", who.c_str (), leaf_str (x).c_str ());
  if (my_violation ())
    return;
  VF_CHECK (te
              == (gho ? t8_forest_ghost_get_leaf_element (f, lt - nt, e.get_local_element_id ())
                      : t8_forest_get_leaf_element_in_tree (f, lt, e.get_local_element_id ())),
            "element-id", "%s: local element id %d names another element", who.c_str (), e.get_local_element_id ());
  const Geo &g = S.geo[gi];
  VF_CHECK (e.get_level () == S.g[gi].l, "level", "%s: level %d", who.c_str (), (int) e.get_level ());
  VF_CHECK ((int) e.get_shape () == g.shape, "shape", "%s: shape %d instead of %d", who.c_str (), (int) e.get_shape (), g.shape);
  VF_CHECK (e.get_num_faces () == S_NF[g.shape], "num-faces", "%s: %d faces", who.c_str (), e.get_num_faces ());
  VF_CHECK (e.get_num_vertices () == g.nv, "num-vertices", "%s: %d vertices", who.c_str (), e.get_num_vertices ());
  if (my_violation ())
    return;
  if constexpr (requires { e.twice_level (); })
    VF_CHECK (e.twice_level () == 2 * S.g[gi].l, "own-competence", "%s: %d", who.c_str (), e.twice_level ());
  const int nf = e.get_num_faces ();
  /* geometry: the same as the forest's functions, first and second time, in random order */
  if (v.geo) {
    for (int k = 0; k < 2; ++k) {
      if (w.mine.chance (0.5)) {
        const int c = (int) w.mine.below (g.nv);
        double p[3];
        t8_forest_element_coordinate (f, lt, te, c, p);
        VF_CHECK (same3 (e.get_vertex_coordinates (c), p), "vertex", "%s: vertex %d differs from the forest's (call %d)", who.c_str (), c, k);
      }
      std::vector<t8_3D_vec> vs = e.get_vertex_coordinates ();
      VF_CHECK ((int) vs.size () == g.nv, "vertex-count", "%s: %zu vertices", who.c_str (), vs.size ());
      for (int c = 0; c < g.nv && c < (int) vs.size (); ++c) {
        double p[3], q[3];
        t8_forest_element_coordinate (f, lt, te, c, p);
        VF_CHECK (same3 (vs[c], p), "vertex", "%s: vertex %d differs from the forest's (call %d)", who.c_str (), c, k);
        w.s->element_get_vertex_reference_coords (ec, te, c, q);
        for (int d = S_DIM[ec]; d < 3; ++d)
          q[d] = 0;
        L3 r = gw_map (*v.G, w.m, S.g[gi].t, q);
        VF_CHECK (norml (r - L3 { vs[c][0], vs[c][1], vs[c][2] }) <= 1e-11 * v.G->size, "vertex-place", "%s: vertex %d is at another place", who.c_str (), c);
      }
      double p[3];
      VF_CHECK (e.get_volume () == t8_forest_element_volume (f, lt, te), "volume", "%s: volume differs (call %d)", who.c_str (), k);
      VF_CHECK (e.get_diameter () == t8_forest_element_diam (f, lt, te), "diameter", "%s: diameter differs (call %d)", who.c_str (), k);
      t8_forest_element_centroid (f, lt, te, p);
      VF_CHECK (same3 (e.get_centroid (), p), "centroid", "%s: centroid differs (call %d)", who.c_str (), k);
      std::vector<int> order (nf);
      for (int a = 0; a < nf; ++a)
        order[a] = a;
      for (int a = nf - 1; a > 0; --a)
        std::swap (order[a], order[w.mine.below (a + 1)]);
      for (int fa : order) {
        VF_CHECK (e.get_face_area (fa) == t8_forest_element_face_area (f, lt, te, fa), "face-area", "%s face %d: area differs (call %d)", who.c_str (), fa, k);
        t8_forest_element_face_centroid (f, lt, te, fa, p);
        VF_CHECK (same3 (e.get_face_centroid (fa), p), "face-centroid", "%s face %d: centroid differs (call %d)", who.c_str (), fa, k);
        t8_forest_element_face_normal (f, lt, te, fa, p);
        VF_CHECK (same3 (e.get_face_normal (fa), p), "face-normal", "%s face %d: normal differs (call %d)", who.c_str (), fa, k);
        count ("face_values", 3);
      }
      count ("geometry_values", 3 + g.nv);
    }
    if constexpr (requires { e.volume_cache_filled (); })
      VF_CHECK (e.volume_cache_filled () && e.diameter_cache_filled () && e.vertex_cache_filled () && e.centroid_cache_filled (), "cache",
                "%s: values that were asked for are not cached", who.c_str ());
    if constexpr (requires { e.face_area_cache_filled (0); })
      for (int fa = 0; fa < nf; ++fa)
        VF_CHECK (e.face_area_cache_filled (fa) && e.face_centroid_cache_filled (fa) && e.face_normal_cache_filled (fa), "cache",
                  "%s face %d: values that were asked for are not cached", who.c_str (), fa);
  }
  for (int fa = 0; fa < nf; ++fa) {
    std::vector<P3> fp = face_pts (g, fa);
    VF_CHECK ((int) e.get_face_shape (fa) == (int) w.s->element_get_face_shape (ec, te, fa), "face-shape", "%s face %d: shape", who.c_str (), fa);
    VF_CHECK (e.get_num_vertices_of_face (fa) == (int) fp.size (), "face-vertices", "%s face %d: %d vertices instead of %zu", who.c_str (), fa,
              e.get_num_vertices_of_face (fa), fp.size ());
    std::set<P3> a (fp.begin (), fp.end ()), b;
    for (int c = 0; c < e.get_num_vertices_of_face (fa); ++c) {
      const int k = e.face_vertex_to_element_vertex (fa, c);
      VF_CHECK (k >= 0 && k < g.nv, "face-vertex", "%s face %d vertex %d is element vertex %d", who.c_str (), fa, c, k);
      if (k >= 0 && k < g.nv)
        b.insert (g.v[k]);
    }
    VF_CHECK (a == b, "face-vertex", "%s face %d: the vertices of the face are others", who.c_str (), fa);
  }
  /* neighbors */
  if (w.P == 1 || v.ghost) {
    const int start = (int) w.mine.below (nf);
    for (int k = 0; k < 2; ++k)
      for (int j = 0; j < nf; ++j) {
        const int fa = (start + j) % nf;
        std::vector<std::pair<i64, int>> exp, got;
        for (auto &b : S.adj[gi][fa]) {
          const i64 y = v.index (b.leaf);
          if (y >= 0)
            exp.push_back ({ y, b.face });
        }
        std::vector<int> dual { 99 };
        const bool with = w.mine.chance (0.7);
        std::vector<const E *> nb = with ? e.get_face_neighbors (fa, dual) : e.get_face_neighbors (fa);
        if (with)
          VF_CHECK (dual.size () == nb.size (), "neighbors", "%s face %d: %zu neighbors and %zu dual faces (call %d)", who.c_str (), fa, nb.size (), dual.size (), k);
        for (size_t q = 0; q < nb.size (); ++q) {
          const E *base = nullptr;
          i64 id = -1;
          for (auto &y : exp)
            if (nb[q] == &h[(t8_locidx_t) y.first])
              base = nb[q], id = y.first;
          VF_CHECK (base != nullptr, "neighbors", "%s face %d: neighbor %zu is none of the %zu expected elements of the mesh (call %d)", who.c_str (), fa, q,
                    exp.size (), k);
          if (!base)
            return;
          got.push_back ({ id, with && q < dual.size () ? dual[q] : 0 });
        }
        if (!with)
          for (auto &y : exp)
            y.second = 0;
        std::sort (exp.begin (), exp.end ());
        std::sort (got.begin (), got.end ());
        VF_CHECK (exp == got, "neighbors", "%s face %d: %zu neighbors instead of %zu, or other faces (call %d)", who.c_str (), fa, got.size (), exp.size (), k);
        count ("neighbor_lists");
        if constexpr (requires { e.neighbor_cache_filled (0); }) {
          bool any = false;
          for (int a = 0; a < nf; ++a)
            any = any || e.neighbor_cache_filled (a);
          VF_CHECK (e.neighbor_cache_filled (fa) && e.neighbor_cache_filled_any () == any, "cache", "%s face %d: the neighbors are %scached, %s are",
                    who.c_str (), fa, e.neighbor_cache_filled (fa) ? "" : "not ", e.neighbor_cache_filled_any () ? "some" : "none");
        }
        if (my_violation ())
          return;
      }
  }
}
template <class M>
static void
check_data (const View &v, M &h)
{
  World &w = *v.w;
  Snap &S = w.S;
  const u64 salt = w.r.next ();
  const int how = w.r.range (0, 2);
  const bool shuffle = w.r.chance (0.5);
  const bool xch = w.r.chance (0.8) && (w.P == 1 || v.ghost);
  const int nl = (int) S.nloc ();
  using T = typename M::ElementDataType;
  auto val = [&] (int gi) -> T {
    if constexpr (std::is_same_v<T, Item>)
      return item_of (S.g[gi], salt);
    else
      return (T) (item_of (S.g[gi], salt).d);
  };
  if (how == 0) {
    std::vector<T> d;
    for (int i = 0; i < nl; ++i)
      d.push_back (val (v.leaf (i)));
    h.set_element_data (d);
  }
  else {
    std::vector<int> o (nl);
    for (int i = 0; i < nl; ++i)
      o[i] = how == 1 ? i : nl - 1 - i;
    if (how == 2 && shuffle)
      for (int i = nl - 1; i > 0; --i)
        std::swap (o[i], o[w.mine.below (i + 1)]);
    for (int i : o)
      h[i].set_element_data (val (v.leaf (i)));
  }
  if (xch)
    h.exchange_ghost_data ();
  const auto &d = h.get_element_data ();
  const int ng = xch ? (int) v.gh.size () : 0;
  VF_CHECK ((int) d.size () >= nl + ng, "data-size", "%zu values for %d elements and %d ghosts", d.size (), nl, ng);
  for (int i = 0; i < nl + ng && i < (int) d.size (); ++i) {
    const T x = val (v.leaf (i));
    VF_CHECK (d[i] == x, "data", "the value of element %d of %d+%d is not that of leaf %s", i, nl, ng, leaf_str (S.g[v.leaf (i)]).c_str ());
    VF_CHECK (h[i].get_element_data () == x, "data-element", "element %d of %d+%d returns another value", i, nl, ng);
    count ("data_values");
  }
}
template <class M>
static void
check_faces (const View &v, M &h)
{
  World &w = *v.w;
  Snap &S = w.S;
  const i64 nl = S.nloc (), ng = (i64) v.gh.size ();
  h.fill_unique_face_vector ();
  for (i64 i = 0; i < nl + ng; ++i) {
    const int r = h.get_rank ((t8_locidx_t) i), x = i < nl ? mh::LOCAL_RANK : S.g[v.leaf (i)].owner;
    VF_CHECK (r == x, "rank", "rank of element %lld is %d instead of %d", (long long) i, r, x);
    count ("ranks");
  }
  if (nl == 0)
    return;
  const std::vector<mh::face> &F = h.get_unique_face_vector ();
  const std::vector<std::vector<int>> &X = h.get_element_face_vector ();
  VF_CHECK ((i64) X.size () == nl + ng, "face-index-size", "%zu entries instead of %lld", X.size (), (long long) (nl + ng));
  if (my_violation ())
    return;
  std::set<std::pair<int, int>> seen_side; /* local sides */
  static const char *TN[] = { "boundary", "conformal", "mortar", "remote conformal", "remote mortar" };
  for (size_t k = 0; k < F.size (); ++k) {
    const mh::face &f = F[k];
    const std::string who = fmt ("face %zu (%s, %zu sides)", k, TN[(int) f.type], f.sides.size ());
    VF_CHECK (!f.sides.empty (), "face-sides", "%s", who.c_str ());
    for (auto &s : f.sides) {
      VF_CHECK (s.element_id >= 0 && s.element_id < nl + ng, "face-sides", "%s: element %d", who.c_str (), s.element_id);
      if (my_violation ())
        return;
      const int gi = v.leaf (s.element_id);
      VF_CHECK (s.local_face_id >= 0 && s.local_face_id < (int) S.adj[gi].size (), "face-sides", "%s: face %d of element %d", who.c_str (), s.local_face_id, s.element_id);
      VF_CHECK (s.rank == (s.element_id < nl ? mh::LOCAL_RANK : S.g[gi].owner), "face-rank", "%s: rank %d of element %d", who.c_str (), s.rank, s.element_id);
      if (my_violation ())
        return;
      if (s.element_id < nl) {
        VF_CHECK (seen_side.insert ({ s.element_id, s.local_face_id }).second, "face-twice", "%s: element %d face %d appears twice", who.c_str (), s.element_id,
                  s.local_face_id);
        VF_CHECK (s.local_face_id < (int) X[s.element_id].size () && X[s.element_id][s.local_face_id] == (int) k, "face-index", "%s: index of element %d face %d is %d",
                  who.c_str (), s.element_id, s.local_face_id, s.local_face_id < (int) X[s.element_id].size () ? X[s.element_id][s.local_face_id] : -99);
      }
      else if (!X[s.element_id].empty ())
        VF_CHECK (s.local_face_id < (int) X[s.element_id].size () && X[s.element_id][s.local_face_id] == (int) k, "face-index", "%s: index of ghost %d face %d",
                  who.c_str (), s.element_id, s.local_face_id);
    }
    if (f.sides.empty () || my_violation ())
      return;
    /* the other sides according to the model, seen from the first */
    const auto &s0 = f.sides[0];
    const int g0 = v.leaf (s0.element_id);
    const auto &nb = S.adj[g0][s0.local_face_id];
    int finer = 0, local = s0.element_id < nl, remote = s0.element_id >= nl;
    std::set<std::pair<i64, int>> must, may;
    for (auto &b : nb) {
      finer += S.g[b.leaf].l > S.g[g0].l;
      const i64 y = v.index (b.leaf);
      (y >= 0 && y < nl ? local : remote)++;
      if (y >= 0)
        may.insert ({ y, b.face });
      if (y >= 0 && (y < nl || s0.element_id < nl))
        must.insert ({ y, b.face });
    }
    mh::face_type t = nb.empty () ? mh::face_type::BOUNDARY
                      : finer     ? (remote ? mh::face_type::MPI_MORTAR : mh::face_type::MORTAR)
                                  : (remote ? mh::face_type::MPI_CONFORMAL : mh::face_type::CONFORMAL);
    VF_CHECK (f.type == t, "face-type", "%s is a %s face", who.c_str (), TN[(int) t]);
    VF_CHECK (local > 0, "face-remote", "%s touches no local element", who.c_str ());
    VF_CHECK (nb.empty () || finer || S.g[nb[0].leaf].l == S.g[g0].l, "face-large-first", "%s: the first side is not the largest", who.c_str ());
    std::set<std::pair<i64, int>> got;
    for (size_t j = 1; j < f.sides.size (); ++j) {
      std::pair<i64, int> p { f.sides[j].element_id, f.sides[j].local_face_id };
      VF_CHECK (got.insert (p).second, "face-side-twice", "%s: side %zu appears twice", who.c_str (), j);
      VF_CHECK (may.count (p), "face-sides", "%s: element %lld face %d does not touch element %d face %d", who.c_str (), (long long) p.first, p.second, s0.element_id,
                s0.local_face_id);
    }
    for (auto &p : must)
      VF_CHECK (got.count (p), "face-sides", "%s: element %lld face %d is missing", who.c_str (), (long long) p.first, p.second);
    if (!nb.empty ())
      VF_CHECK (f.orientation == orient_of (v, g0, s0.local_face_id), "face-orientation", "%s: orientation %d instead of %d", who.c_str (), f.orientation,
                orient_of (v, g0, s0.local_face_id));
    if (t == mh::face_type::CONFORMAL || t == mh::face_type::MPI_CONFORMAL)
      VF_CHECK (f.sides.size () == 2 && s0.element_id <= f.sides[1].element_id, "face-primary", "%s: the primary side has the larger id", who.c_str ());
    count ((std::string ("faces_") + TN[(int) t]).c_str ());
    if (my_violation ())
      return;
  }
  for (i64 i = 0; i < nl; ++i) {
    const int nf = (int) S.adj[v.leaf (i)].size ();
    VF_CHECK ((int) X[i].size () == nf, "face-index-size", "element %lld: %zu faces instead of %d", (long long) i, X[i].size (), nf);
    for (int fa = 0; fa < nf; ++fa) {
      VF_CHECK (seen_side.count ({ (int) i, fa }), "face-missing", "face %d of element %lld (%s, dimension %d, %s) is in no entry", fa, (long long) i,
                leaf_str (S.g[v.leaf (i)]).c_str (), S_DIM[S.ec (v.leaf (i))],
                S.adj[v.leaf (i)][fa].empty () ? "boundary" : S.adj[v.leaf (i)][fa][0].leaf == v.leaf (i) ? "own neighbor" : "with neighbor");
      if (my_violation ())
        return;
    }
  }
  count ("face_vectors");
}
template <class M>
static void
check_mesh (const View &v, M &h)
{
  World &w = *v.w;
  Snap &S = w.S;
  const i64 nl = S.nloc (), ng = (i64) v.gh.size ();
  const M &ch = h;
  VF_CHECK (h.get_num_local_elements () == nl, "num-local", "%d local elements instead of %lld", h.get_num_local_elements (), (long long) nl);
  VF_CHECK (h.get_num_ghosts () == ng, "num-ghosts", "%d ghosts instead of %lld", h.get_num_ghosts (), (long long) ng);
  VF_CHECK (h.get_dimension () == S_DIM[w.m.m.cls[0]], "dimension", "dimension %d", h.get_dimension ());
  if (any_violation ())
    return;
  i64 k = 0;
  for (auto it = h.cbegin (); it != h.cend (); ++it, ++k)
    VF_CHECK (k >= nl || &*it == &ch[(t8_locidx_t) k], "iteration", "the iterator's element %lld is another than the mesh's", (long long) k);
  VF_CHECK (k == nl, "iteration", "%lld elements iterated instead of %lld", (long long) k, (long long) nl);
  k = 0;
  for (auto &e : h)
    k += e.get_level () >= 0;
  for (auto &e : ch)
    k += e.get_level () >= 0;
  VF_CHECK (k == 2 * nl, "iteration", "%lld elements in the range loops", (long long) k);
  std::vector<i64> order (nl + ng);
  for (i64 i = 0; i < nl + ng; ++i)
    order[i] = i;
  for (i64 i = nl + ng - 1; i > 0; --i)
    std::swap (order[i], order[w.mine.below (i + 1)]);
  const i64 most = st ().only_case >= 0 ? nl + ng : std::min<i64> (nl + ng, 60);
  for (i64 i = 0; i < most && !my_violation (); ++i)
    check_element (v, ch, order[i]);
  if (any_violation ())
    return;
  if constexpr (M::has_element_data_handler_competence ())
    check_data (v, h);
  if (any_violation ())
    return;
  const bool bal = snap_balanced (S);
  VF_CHECK ((bool) h.is_balanced () == (bool) t8_forest_is_balanced (h.get_forest ()), "is-balanced", "is_balanced differs from the forest's");
  if constexpr (M::has_face_vector_mesh_competence ())
    if (bal && (w.P == 1 || v.ghost))
      check_faces (v, h);
  count ("meshes_checked");
}
/* the operation of a world on a handle */
struct UserData
{
  const OpSpec *o;
  std::vector<Call> *log;
  int maxl;
};
template <class M>
static void
apply (World &w, M &h, const OpSpec &o, const std::vector<Call> *want_log)
{
  std::vector<Call> log;
  std::string bad;
  const t8_scheme *s = w.s;
  const int maxl = w.S.maxl;
  const OpSpec *op = &o;
  auto decide = [&log, &bad, &h, s, maxl] (const M &mesh, std::span<const typename M::element_class> e, const OpSpec *q) {
    if (&mesh != &h)
      bad = "another mesh";
    Call c { 0, 0, e.size () > 1, (int) e.size (), 0, {} };
    const t8_locidx_t lt = e[0].get_local_tree_id ();
    const t8_eclass_t ec = t8_forest_get_tree_class (mesh.get_forest (), lt);
    const int gt = (int) t8_forest_global_tree_id (mesh.get_forest (), lt);
    c.ltree = lt;
    c.lel = e[0].get_local_element_id ();
    const t8_locidx_t id = e[0].get_element_handle_id ();
    for (size_t i = 0; i < e.size (); ++i) {
      if (&e[i] != &mesh[id + (t8_locidx_t) i])
        bad = "elements that are not those of the mesh";
      c.e.push_back (leaf_of (s, ec, e[i].get_forest_element (), gt, maxl));
    }
    int dec = 0;
    if (c.fam) {
      El p (s, ec);
      s->element_get_parent (ec, e[0].get_forest_element (), p);
      if (q->d.coarsen (leaf_of (s, ec, p, gt, maxl)))
        dec = -1;
    }
    if (dec == 0)
      dec = q->d.single (c.e[0]);
    c.dec = dec;
    log.push_back (c);
    return dec;
  };
  const bool wrapped = w.r.chance (0.5);
  if (o.what & W_ADAPT) {
    if (wrapped)
      h.set_adapt (M::template mesh_adapt_callback_wrapper<const OpSpec *> (decide, op));
    else
      h.set_adapt ([&decide, op] (const M &m, std::span<const typename M::element_class> e) { return decide (m, e, op); });
  }
  /* the order of the settings must not matter */
  const bool swap = w.r.chance (0.3);
  if (swap && (o.what & W_BAL))
    h.set_balance (o.no_repart);
  if (o.what & W_PART)
    h.set_partition (o.for_coarsening);
  if (!swap && (o.what & W_BAL))
    h.set_balance (o.no_repart);
  if (o.ghost)
    h.set_ghost ();
  h.commit ();
  VF_CHECK (bad.empty (), "adapt-callback", "the adapt callback got %s", bad.c_str ());
  if (want_log) {
    bool ok = log.size () == want_log->size ();
    size_t i = 0;
    for (; ok && i < log.size (); ++i) {
      const Call &a = log[i], &b = (*want_log)[i];
      ok = a.ltree == b.ltree && a.lel == b.lel && a.num == b.num && a.dec == b.dec;
      for (int k = 0; ok && k < a.num; ++k)
        ok = a.e[k].same (b.e[k]);
    }
    VF_CHECK (ok, "adapt-calls", "the calls of the adapt callback differ from the forest's at call %zu (%zu and %zu calls)", i, log.size (), want_log->size ());
    count ("adapt_calls", (i64) log.size ());
  }
  count ("commits");
}
template <class M>
static void
compare_forest (const View &v, M &h)
{
  World &w = *v.w;
  t8_forest_t f = h.get_forest ();
  VF_CHECK (t8_forest_is_equal (f, w.f), "forest", "the forest of the handle differs from the forest after the same operation");
  VF_CHECK (t8_forest_get_global_num_leaf_elements (f) == w.S.n (), "forest", "%lld leaves instead of %lld", (long long) t8_forest_get_global_num_leaf_elements (f),
            (long long) w.S.n ());
}
template <class M>
static void
history (u64 seed, i64 k, const char *name)
{
  const int before = held_blocks ();
  {
    World w (seed, st ().comm);
    GWorld G;
    const int scheme = w.r.chance (0.75) ? 0 : 1;
    const bool geo = w.r.chance (0.6);
    w.limit = 350;
    w.prem_bias = 0;
    if (geo)
      w.make_mesh = [&] (Rng &r) { return geo_mesh (r, scheme, G); };
    w_start (w, scheme, 5);
    w.hist = fmt ("case %lld seed %llu %s ", (long long) k, (unsigned long long) st ().seed, name) + w.hist;
    ctx ("%s", w.hist.c_str ());
    t8_forest_ref (w.f);
    auto *h = new M (w.f);
    View v { &w, &G, geo, w.ghost, {} };
    bool gh = w.ghost != 0;
    auto view = [&] () {
      v.ghost = gh;
      snap_adjacency (w.S);
      v.gh = gh && w.P > 1 ? model_ghosts (w.S, w.me) : std::vector<int> ();
    };
    view ();
    check_mesh (v, *h);
    const int nops = w.r.range (1, 5);
    for (int i = 0; i < nops && !any_violation (); ++i) {
      OpSpec o = random_op (w);
      o.rec = false;
      o.weights = 0;
      o.offsets = false;
      o.d.force_target = false;
      if (w.r.chance (0.15)) {
        o.what |= W_BAL;
        o.what &= ~W_COPY;
      }
      if (w.r.chance (0.6))
        o.ghost = 3;
      if (o.ghost)
        o.ghost = 3;
      if (w.P > 1 && w.S.n () > 0 && w.r.chance (0.1))
        o.ghost = 0;
      t8_forest_t old = do_op (w, o, true);
      if (any_violation ())
        return;
      /* the same on the handle */
      Snap now = w.S;
      const std::vector<Call> log = w.a.log;
      const bool adapted = o.what & W_ADAPT;
      w_ctx (w, "handle:");
      apply (w, *h, o, adapted ? &log : nullptr);
      if (old)
        t8_forest_unref (&old);
      if (any_violation ())
        return;
      gh = o.ghost != 0;
      compare_forest (v, *h);
      if (any_violation ())
        return;
      view ();
      w_ctx (w, "check");
      if (w.S.n () <= 6 * w.limit)
        check_mesh (v, *h);
      if (any_violation ())
        return;
      seen ("states", comb (w.S.hash (true), gh));
      if (w.S.n () > 4 * w.limit)
        break;
    }
    if (any_violation ())
      return;
    /* leaving settings behind that were never committed */
    if (w.r.chance (0.3)) {
      w_ctx (w, "abandon");
      const int x = w.r.range (1, 15);
      if (x & 1)
        h->set_adapt ([] (const M &, std::span<const typename M::element_class>) { return 1; });
      if (x & 2)
        h->set_partition ();
      if (x & 4)
        h->set_balance ();
      if (x & 8)
        h->set_ghost ();
      count ("abandoned");
    }
    if (k < 4)
      sample (w.hist.substr (0, 400));
    delete h;
    w_end (w);
    count ("histories");
    seen ("histories", hash_str (w.hist));
  }
  VF_CHECK (held_blocks () == before, "leak-handle", "%d blocks held, %d before", held_blocks (), before);
}
/* the convenience constructors */
template <class M>
static void
constructors (u64 seed, i64 k)
{
  Rng r (seed);
  const int before = held_blocks ();
  const int what = r.range (0, 3), lvl = r.range (0, 2);
  const bool ghost = r.chance (0.5), part = r.chance (0.5);
  bool per = r.chance (0.4);
  const t8_eclass_t ec = (t8_eclass_t) r.range (1, 7);
  if (ec == T8_ECLASS_PYRAMID)
    per = false;
  ctx ("case %lld constructor %d class %d level %d ghost %d partition %d periodic %d", (long long) k, what, ec, lvl, ghost, part, per);
  std::unique_ptr<M> h;
  t8_cmesh_t c;
  sc_MPI_Comm comm = st ().comm;
  if (what == 0) {
    h = mh::handle_hypercube_uniform_default<M> (ec, lvl, comm, part, ghost, per);
    t8_cmesh_init (&c);
    t8_cmesh_new_hypercube (&c, ec, comm, 0, part, per);
  }
  else if (what == 1) {
    h = mh::handle_hypercube_hybrid_uniform_default<M> (lvl, comm, ghost, per);
    t8_cmesh_init (&c);
    t8_cmesh_new_hypercube_hybrid (c, comm, per);
  }
  else {
    t8_cmesh_init (&c);
    t8_cmesh_new_hypercube (&c, ec, comm, 0, part, per);
    t8_cmesh_ref (c);
    if (what == 2)
      h = mh::handle_new_uniform_default<M> (c, lvl, comm, ghost);
    else
      h = mh::handle_new_uniform<M> (c, t8_scheme_new_default (), lvl, comm, ghost);
  }
  t8_forest_t f = t8_forest_new_uniform (c, t8_scheme_new_default (), lvl, ghost, comm), g = h->get_forest ();
  VF_CHECK (t8_forest_get_local_num_leaf_elements (f) == h->get_num_local_elements () && t8_forest_get_num_ghosts (f) == h->get_num_ghosts ()
              && t8_forest_get_num_local_trees (f) == t8_forest_get_num_local_trees (g),
            "constructor", "%d elements and %d ghosts instead of %d and %d", h->get_num_local_elements (), h->get_num_ghosts (), t8_forest_get_local_num_leaf_elements (f),
            t8_forest_get_num_ghosts (f));
  if (!any_violation ()) {
    const t8_scheme *s = t8_forest_get_scheme (f);
    t8_locidx_t i = 0;
    for (t8_locidx_t lt = 0; lt < t8_forest_get_num_local_trees (f); ++lt)
      for (t8_locidx_t e = 0; e < t8_forest_get_tree_num_leaf_elements (f, lt); ++e, ++i) {
        const auto &x = (*h)[i];
        const t8_element_t *te = t8_forest_get_leaf_element_in_tree (f, lt, e);
        VF_CHECK (x.get_local_tree_id () == lt && s->element_is_equal (t8_forest_get_tree_class (f, lt), te, x.get_forest_element ()), "constructor",
                  "element %d of the handle differs from the uniform forest's", i);
        double p[3];
        t8_forest_element_centroid (f, lt, te, p);
        VF_CHECK (same3 (x.get_centroid (), p), "constructor", "element %d of the handle has another centroid than the uniform forest's", i);
      }
  }
  if (any_violation ())
    return;
  h.reset ();
  t8_forest_unref (&f);
  count ("constructors");
  VF_CHECK (held_blocks () == before, "leak-handle", "%d blocks held, %d before", held_blocks (), before);
}
/* two handles of one forest, both with a pending adaptation */
static void
shared_forest (u64 seed, i64 k, bool nested)
{
  Rng r (seed);
  const int before = held_blocks ();
  const t8_eclass_t ec = (t8_eclass_t) r.range (1, 7);
  ctx ("case %lld shared forest class %d nested %d", (long long) k, ec, nested);
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  t8_cmesh_new_hypercube (&c, ec, st ().comm, 0, 0, 0);
  t8_forest_t f = t8_forest_new_uniform (c, t8_scheme_new_default (), 1, 0, st ().comm);
  const i64 n = t8_forest_get_global_num_leaf_elements (f);
  const i64 trees = t8_forest_get_num_global_trees (f), nch = n / trees;
  t8_forest_ref (f);
  {
    Plain a (f);
    Cached b (f);
    auto ra = [] (const Plain &, std::span<const Plain::element_class>) { return 0; };
    auto rb = [] (const Cached &, std::span<const Cached::element_class>) { return 1; };
    if (nested) {
      a.set_adapt (ra);
      b.set_adapt (rb);
      a.commit ();
      b.commit ();
    }
    else {
      a.set_adapt (ra);
      a.commit ();
      b.set_adapt (rb);
      b.commit ();
    }
    const i64 na = t8_forest_get_global_num_leaf_elements (a.get_forest ()), nb = t8_forest_get_global_num_leaf_elements (b.get_forest ());
    VF_CHECK (na == n, "shared-forest", "%lld leaves instead of %lld", (long long) na, (long long) n);
    const bool ok = ec == T8_ECLASS_PYRAMID ? nb > n : nb == n * nch;
    if (nested) {
      if (!ok && st ().rank == 0 && !has_opt ("memory-only")) {
        printf ("\nKNOWN shared-adapt two handles of one forest with a pending adaptation each: the second has %lld leaves after refining %lld\n", (long long) nb, (long long) n);
        fflush (stdout);
      }
    }
    else
      VF_CHECK (ok, "shared-forest", "%lld leaves after refining %lld", (long long) nb, (long long) n);
  }
  count ("shared_forests");
  VF_CHECK (held_blocks () == before, "leak-handle", "%d blocks held, %d before", held_blocks (), before);
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  const i64 n = (i64) (opt_int ("n", 40) * st ().scale);
  Rng r (comb (st ().seed, 3131));
  if (st ().only_case < 0)
    shared_forest (1, -1, true);
  for (i64 k = 0; k < n; ++k) {
    const u64 s = r.next ();
    if (st ().only_case >= 0 && st ().only_case != k)
      continue;
    switch (k % 6) {
    case 0:
      history<Plain> (s, k, "plain");
      break;
    case 1:
      history<Cached> (s, k, "cached");
      break;
    case 2:
    case 3:
      history<Full> (s, k, "full");
      break;
    case 4:
      if (s % 2)
        history<Faces> (s, k, "faces");
      else
        history<Data> (s, k, "data");
      break;
    default:
      if (s % 8 == 7)
        shared_forest (s, k, s % 3 == 0);
      else if (s % 2)
        constructors<Plain> (s, k);
      else
        constructors<Full> (s, k);
    }
    if (any_violation ())
      break;
  }
  return finish ();
}
