/* C17: ownership histories.  Schemes, coarse meshes and forests are created, referenced, derived from, abandoned
 * before commit and released in random orders.  Model: an object lives as long as a handle of the program or a
 * living object needs it.  Observed: every living object is read in full and must not have changed (a wrong early
 * release is an invalid access for the address sanitizer), geometries count their construction and destruction,
 * and when nothing is left all memory must be back. */
#include "fcheck.hxx"
#include <t8_cmesh/t8_cmesh_examples.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear_axis_aligned.hxx>
#include <t8_geometry/t8_geometry_handler.hxx>
#include <t8_cmesh/t8_cmesh_geometry.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.h>
#include <t8_forest/t8_forest_profiling.h>
#include <t8_forest/t8_forest_adapt.h>
#include <t8_schemes/t8_default/t8_default.hxx>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.h>

using namespace vf;

/* ---------------------------------------------------------------- geometries that report their life */
static std::map<u64, int> g_geom_alive; /* number of living geometries by handler */
static int g_geom_bad = 0;
struct LiveGeometry: public t8_geometry_linear
{
  u64 id, magic = 0x11fe11fe11feULL;
  LiveGeometry (u64 i): id (i)
  {
    ++g_geom_alive[id];
  }
  virtual ~LiveGeometry ()
  {
    if (magic != 0x11fe11fe11feULL || --g_geom_alive[id] < 0)
      g_geom_bad = 1;
    magic = 0;
    if (g_geom_alive[id] == 0)
      g_geom_alive.erase (id);
  }
};

struct Obj
{
  enum Kind { SCHEME, CMESH, FOREST } kind;
  int serial;
  const t8_scheme *s = nullptr;
  t8_cmesh_t c = nullptr;
  t8_forest_t f = nullptr;
  int refs = 1;      /* handles held by every rank */
  int mine = 0;      /* more handles held by this rank only */
  u64 geom = 0;      /* id of the living geometry it needs, 0: none */
  u64 digest = 0;
  std::shared_ptr<FMesh> m;
  int sid = 0;       /* kind of scheme */
  bool ghost = false, incomplete = false, part = false;
  i64 n = 0;         /* global number of leaves */
};

static u64
digest_scheme (const t8_scheme *s)
{
  u64 h = s->get_num_eclass_schemes ();
  for (int c = T8_ECLASS_LINE; c <= T8_ECLASS_HEX; ++c) {
    t8_element_t *e;
    s->element_new ((t8_eclass_t) c, 1, &e);
    s->set_to_root ((t8_eclass_t) c, e);
    h = comb (h, s->element_get_num_children ((t8_eclass_t) c, e));
    h = comb (h, s->get_maxlevel ((t8_eclass_t) c));
    h = comb (h, s->get_element_size ((t8_eclass_t) c));
    s->element_destroy ((t8_eclass_t) c, 1, &e);
  }
  return h;
}
static u64
digest_cmesh (t8_cmesh_t c)
{
  u64 h = comb (t8_cmesh_get_num_trees (c), t8_cmesh_get_num_local_trees (c));
  h = comb (h, t8_cmesh_get_num_ghosts (c));
  h = comb (h, t8_cmesh_is_partitioned (c));
  for (t8_locidx_t t = 0; t < t8_cmesh_get_num_local_trees (c); ++t) {
    const int ec = t8_cmesh_get_tree_class (c, t);
    h = comb (h, ec);
    for (int f = 0; f < CM_NF[ec]; ++f) {
      int df = -1, o = -1;
      const t8_locidx_t q = t8_cmesh_get_face_neighbor (c, t, f, &df, &o);
      h = comb (comb (comb (h, q + 1), df), o);
    }
    const double *v = t8_cmesh_get_tree_vertices (c, t);
    if (v)
      h = hash_bytes (v, CM_NV[ec] * 24, h);
  }
  for (t8_locidx_t t = 0; t < t8_cmesh_get_num_ghosts (c); ++t)
    h = comb (h, t8_cmesh_get_ghost_class (c, t));
  return h;
}
static u64
digest_forest (t8_forest_t f, bool ghost)
{
  /* (balance may give its source a ghost layer) */
  const t8_scheme *s = t8_forest_get_scheme (f);
  u64 h = comb (t8_forest_get_global_num_leaf_elements (f), t8_forest_get_local_num_leaf_elements (f));
  if (ghost)
    h = comb (h, t8_forest_get_num_ghosts (f));
  h = comb (h, t8_forest_get_first_local_leaf_element_id (f));
  for (t8_locidx_t t = 0; t < t8_forest_get_num_local_trees (f); ++t) {
    const t8_eclass_t ec = t8_forest_get_tree_class (f, t);
    h = comb (h, t8_forest_global_tree_id (f, t));
    const t8_locidx_t n = t8_forest_get_tree_num_leaf_elements (f, t);
    for (t8_locidx_t i = 0; i < n; ++i) {
      const t8_element_t *e = t8_forest_get_leaf_element_in_tree (f, t, i);
      const int l = s->element_get_level (ec, e);
      h = comb (comb (h, l), s->element_get_linear_id (ec, e, l));
      if (i < 2) {
        double x[3] = { 0, 0, 0 };
        t8_forest_element_coordinate (f, t, e, 0, x);
        h = hash_bytes (x, sizeof x, h);
      }
    }
  }
  for (t8_locidx_t t = 0; ghost && t < t8_forest_get_num_ghost_trees (f); ++t) {
    const t8_eclass_t ec = t8_forest_ghost_get_tree_class (f, t);
    for (t8_locidx_t i = 0; i < t8_forest_ghost_tree_num_leaf_elements (f, t); ++i) {
      const t8_element_t *e = t8_forest_ghost_get_leaf_element (f, t, i);
      const int l = s->element_get_level (ec, e);
      h = comb (comb (h, l), s->element_get_linear_id (ec, e, l));
    }
  }
  return comb (h, digest_cmesh (t8_forest_get_cmesh (f)));
}
static u64
digest (const Obj &o)
{
  return o.kind == Obj::SCHEME ? digest_scheme (o.s) : o.kind == Obj::CMESH ? digest_cmesh (o.c) : digest_forest (o.f, o.ghost);
}

struct Life
{
  Rng r, mine;
  std::vector<Obj> pool;
  std::string hist;
  int serial = 0;
  u64 next_geom = 1;
  AttrKeep keep;
  explicit Life (u64 seed): r (seed), mine (comb (seed, 1000 + st ().rank))
  {
  }
};
static void
note (Life &L, const std::string &s)
{
  L.hist += " " + s;
  std::string h = L.hist.size () > 1800 ? L.hist.substr (0, 200) + " ... " + L.hist.substr (L.hist.size () - 1500) : L.hist;
  ctx ("%s", h.c_str ());
}
static const char *KN[3] = { "scheme", "cmesh", "forest" };
static std::string
name (const Obj &o)
{
  return fmt ("%s%d", KN[o.kind], o.serial);
}
static Obj &
add (Life &L, Obj o)
{
  o.serial = L.serial++;
  o.digest = digest (o);
  L.pool.push_back (o);
  note (L, "=> " + name (o));
  return L.pool.back ();
}
static void
release (Obj &o)
{
  if (o.kind == Obj::SCHEME)
    o.s->unref ();
  else if (o.kind == Obj::CMESH) {
    t8_cmesh_t c = o.c;
    t8_cmesh_unref (&c);
  }
  else {
    t8_forest_t f = o.f;
    t8_forest_unref (&f);
  }
}
static void
retain (Obj &o)
{
  if (o.kind == Obj::SCHEME)
    o.s->ref ();
  else if (o.kind == Obj::CMESH)
    t8_cmesh_ref (o.c);
  else
    t8_forest_ref (o.f);
}
/* give one handle away (to an object under construction) or keep it by taking another one before */
static void
give (Life &L, int i)
{
  Obj &o = L.pool[i];
  if (o.refs == 1 && L.r.chance (0.5)) {
    for (; o.mine > 0; --o.mine)
      release (o);
    note (L, "give " + name (o));
    L.pool.erase (L.pool.begin () + i);
  }
  else {
    retain (o);
    note (L, "share " + name (o));
  }
}
static int
find (Life &L, Obj::Kind k, const std::function<bool (const Obj &)> &ok = [] (const Obj &) { return true; })
{
  std::vector<int> v;
  for (size_t i = 0; i < L.pool.size (); ++i)
    if (L.pool[i].kind == k && ok (L.pool[i]))
      v.push_back ((int) i);
  return v.empty () ? -1 : v[L.r.below (v.size ())];
}
static void
new_scheme (Life &L)
{
  note (L, "new scheme");
  Obj o;
  o.kind = Obj::SCHEME;
  o.sid = L.r.chance (0.75) ? 0 : 1;
  o.s = make_scheme (o.sid);
  add (L, o);
}
static int
need_scheme (Life &L, int sid)
{
  int i = find (L, Obj::SCHEME, [&] (const Obj &o) { return sid < 0 || o.sid == sid; });
  while (i < 0) {
    new_scheme (L);
    i = find (L, Obj::SCHEME, [&] (const Obj &o) { return sid < 0 || o.sid == sid; });
  }
  return i;
}
static void
geometry (Life &L, t8_cmesh_t c, u64 &id)
{
  id = 0;
  const int k = L.r.range (0, 3);
  if (k >= 1) {
    id = L.next_geom++;
    t8_cmesh_register_geometry<LiveGeometry> (c, id);
  }
  else
    t8_cmesh_register_geometry<t8_geometry_linear> (c);
  if (k == 2) /* one more, of another name */
    t8_cmesh_register_geometry<t8_geometry_linear_axis_aligned> (c);
}
static void
specify (Life &L, t8_cmesh_t c, const FMesh &m, u64 &geom, bool part)
{
  t8_cmesh_set_dimension (c, m.m.dim);
  geometry (L, c, geom);
  if (part) {
    const Part p = part_random (L.r, m.n (), st ().size);
    const int f = p.first[st ().rank], l = p.last[st ().rank];
    t8_cmesh_set_partition_range (c, 3, l < f ? f : (p.shared[st ().rank] ? -(t8_gloidx_t) f - 1 : f), l);
  }
  auto all = [] (int) { return true; };
  cm_specify (c, m.m, L.mine, L.keep, all, all, L.r.chance (0.3));
}
static void
new_cmesh (Life &L)
{
  Obj o;
  o.kind = Obj::CMESH;
  const int how = L.r.range (0, 6);
  const int src = find (L, Obj::CMESH);
  if (how <= 3 || src < 0) {
    o.sid = L.r.chance (0.75) ? 0 : 1;
    o.m = std::make_shared<FMesh> (fm_random (L.r, o.sid, L.r.range (1, 6)));
    o.part = how == 1;
    if (how == 2) {
      const int root = (int) L.r.below (st ().size);
      note (L, fmt ("broadcast cmesh from %d", root));
      auto all = [] (int) { return true; };
      t8_cmesh_t c = NULL;
      if (st ().rank == root) {
        t8_cmesh_init (&c);
        t8_cmesh_set_dimension (c, o.m->m.dim);
        cm_specify (c, o.m->m, L.mine, L.keep, all, all, false);
      }
      o.c = t8_cmesh_bcast (c, root, st ().comm);
      o.geom = L.next_geom++;
      t8_cmesh_register_geometry<LiveGeometry> (o.c, o.geom);
    }
    else {
      note (L, fmt ("%s cmesh", o.part ? "partitioned" : "replicated"));
      t8_cmesh_init (&o.c);
      t8_cmesh_set_dimension (o.c, o.m->m.dim);
      o.geom = 0;
      if (L.r.chance (0.7)) {
        o.geom = L.next_geom++;
        t8_cmesh_register_geometry<LiveGeometry> (o.c, o.geom);
      }
      else
        t8_cmesh_register_geometry<t8_geometry_linear> (o.c);
      if (o.part) {
        const Part p = part_random (L.r, o.m->n (), st ().size);
        const int f = p.first[st ().rank], l = p.last[st ().rank];
        t8_cmesh_set_partition_range (o.c, 3, l < f ? f : (p.shared[st ().rank] ? -(t8_gloidx_t) f - 1 : f), l);
      }
      auto all = [] (int) { return true; };
      cm_specify (o.c, o.m->m, L.mine, L.keep, all, all, L.r.chance (0.3));
      if (L.r.chance (0.3))
        t8_cmesh_set_profiling (o.c, 1);
      if (L.r.chance (0.2))
        t8_cmesh_set_profiling (o.c, 0);
    }
    t8_cmesh_commit (o.c, st ().comm);
  }
  else {
    /* derived: copy or repartitioned */
    const Obj from = L.pool[src];
    o.m = from.m;
    o.sid = from.sid;
    o.geom = from.geom;
    t8_cmesh_init (&o.c);
    const bool part = L.r.chance (0.7);
    int sc = -1;
    if (part) {
      sc = need_scheme (L, -1);
    }
    note (L, fmt ("%s of %s", part ? "repartition" : "copy", name (from).c_str ()));
    if (part) {
      const t8_scheme *s = L.pool[sc].s;
      bool fits = true; /* the scheme must know the classes */
      for (int c : o.m->m.cls)
        fits = fits && (L.pool[sc].sid == 0 || c <= T8_ECLASS_QUAD || c == T8_ECLASS_HEX);
      const int lvl = L.r.range (0, 2), oc = (int) L.r.below (st ().size);
      give (L, sc);
      if (fits && L.r.chance (0.6))
        t8_cmesh_set_partition_uniform (o.c, lvl, s);
      else {
        s->unref ();
        t8_cmesh_set_partition_offsets (o.c, t8_cmesh_offset_concentrate (oc, st ().comm, o.m->n ()));
      }
      o.part = true;
    }
    else
      o.part = from.part;
    give (L, find (L, Obj::CMESH, [&] (const Obj &x) { return x.serial == from.serial; }));
    t8_cmesh_set_derive (o.c, from.c);
    if (L.r.chance (0.2))
      t8_cmesh_set_profiling (o.c, 1);
    t8_cmesh_commit (o.c, st ().comm);
  }
  count ("cmeshes");
  add (L, o);
}
static int
cb_some (t8_forest_t, t8_forest_t from, t8_locidx_t lt, const t8_eclass_t ec, t8_locidx_t, const t8_scheme_c *s, const int fam, const int, t8_element_t *e[])
{
  const int l = s->element_get_level (ec, e[0]);
  const u64 h = comb (comb (t8_forest_global_tree_id (from, lt), l), s->element_get_linear_id (ec, e[0], l));
  if (l < 4 && h % 4 == 0)
    return 1;
  if (fam && h % 4 == 1)
    return -1;
  return 0;
}
static void
new_forest (Life &L)
{
  Obj o;
  o.kind = Obj::FOREST;
  const int src = find (L, Obj::FOREST, [] (const Obj &x) { return x.n < 3000; });
  if (src < 0 || L.r.chance (0.3)) {
    int ci = find (L, Obj::CMESH);
    while (ci < 0) {
      new_cmesh (L);
      ci = find (L, Obj::CMESH);
    }
    const Obj from = L.pool[ci];
    bool fits = true;
    for (int c : from.m->m.cls)
      fits = fits && (c <= T8_ECLASS_QUAD || c == T8_ECLASS_HEX);
    const int si = need_scheme (L, fits ? -1 : 0);
    const t8_scheme *s = L.pool[si].s;
    o.sid = L.pool[si].sid;
    o.m = from.m;
    o.geom = from.geom;
    i64 n = 0;
    for (int c : o.m->m.cls)
      n += s->count_leaves_from_root ((t8_eclass_t) c, 2);
    const int lvl = L.r.range (0, n > 800 ? 1 : 2);
    note (L, fmt ("uniform forest level %d on %s", lvl, name (from).c_str ()));
    t8_cmesh_t c = from.c;
    give (L, find (L, Obj::SCHEME, [&] (const Obj &x) { return x.s == s; }));
    if (from.part) {
      /* the mesh must be partitioned like the forest */
      t8_cmesh_t u;
      t8_cmesh_init (&u);
      give (L, find (L, Obj::CMESH, [&] (const Obj &x) { return x.serial == from.serial; }));
      t8_cmesh_set_derive (u, c);
      s->ref ();
      t8_cmesh_set_partition_uniform (u, lvl, s);
      t8_cmesh_commit (u, st ().comm);
      c = u;
    }
    else
      give (L, find (L, Obj::CMESH, [&] (const Obj &x) { return x.serial == from.serial; }));
    o.part = from.part;
    o.ghost = L.r.chance (0.4);
    if (L.r.chance (0.5))
      o.f = t8_forest_new_uniform (c, s, lvl, o.ghost, st ().comm);
    else {
      t8_forest_init (&o.f);
      t8_forest_set_cmesh (o.f, c, st ().comm);
      t8_forest_set_scheme (o.f, s);
      t8_forest_set_level (o.f, lvl);
      if (o.ghost)
        t8_forest_set_ghost (o.f, 1, T8_GHOST_FACES);
      if (L.r.chance (0.3))
        t8_forest_set_profiling (o.f, L.r.chance (0.8));
      if (L.r.chance (0.1))
        t8_forest_set_profiling (o.f, 0);
      t8_forest_commit (o.f);
    }
  }
  else {
    const Obj from = L.pool[src];
    o.m = from.m;
    o.geom = from.geom;
    o.sid = from.sid;
    o.part = from.part;
    const int what = L.r.range (0, 6);
    o.ghost = L.r.chance (0.4);
    note (L, fmt ("derive %d%s from %s", what, o.ghost ? "+ghost" : "", name (from).c_str ()));
    give (L, src);
    const bool rec = L.r.chance (0.3);
    if (what == 6)
      o.f = t8_forest_new_adapt (from.f, cb_some, 0, o.ghost, NULL);
    else {
      t8_forest_init (&o.f);
      if (what == 0)
        t8_forest_set_copy (o.f, from.f);
      if (what == 1 || what == 4 || what == 5)
        t8_forest_set_adapt (o.f, from.f, cb_some, rec && what == 1);
      if (what == 2 || what == 4)
        t8_forest_set_partition (o.f, what == 2 ? from.f : NULL, 0);
      if (what == 3 || what == 5)
        t8_forest_set_balance (o.f, what == 3 ? from.f : NULL, L.r.chance (0.5));
      if (o.ghost)
        t8_forest_set_ghost_ext (o.f, 1, T8_GHOST_FACES, L.r.range (2, 3));
      if (L.r.chance (0.3))
        t8_forest_set_profiling (o.f, L.r.chance (0.8));
      if (L.r.chance (0.1))
        t8_forest_set_profiling (o.f, 0);
      t8_forest_commit (o.f);
    }
  }
  o.n = t8_forest_get_global_num_leaf_elements (o.f);
  count ("forests");
  Obj &x = add (L, o);
  if (x.ghost && L.r.chance (0.3)) {
    const size_t sz = 1 + L.r.below (40);
    sc_array_t a;
    sc_array_init_size (&a, sz, t8_forest_get_local_num_leaf_elements (x.f) + t8_forest_get_num_ghosts (x.f));
    memset (a.array, 7, a.elem_count * sz);
    note (L, "exchange");
    t8_forest_ghost_exchange_data (x.f, &a);
    for (size_t i = 0; i < a.elem_count * sz; ++i)
      if (a.array[i] != 7) {
        count ("exchange_foreign");
        break;
      }
    sc_array_reset (&a);
    count ("exchanges");
  }
}
/* objects that are begun and given up */
static void
abandon (Life &L)
{
  const int k = L.r.range (0, 9);
  const int ci = find (L, Obj::CMESH), fi = find (L, Obj::FOREST), si = find (L, Obj::SCHEME);
  if (k <= 3) {
    t8_cmesh_t c;
    note (L, fmt ("abandon cmesh %d", k));
    t8_cmesh_init (&c);
    if (k >= 1) {
      FMesh m = fm_random (L.r, 0, 4);
      u64 g = 0;
      if (k == 1)
        specify (L, c, m, g, false);
      else if (k == 2) {
        auto all = [] (int) { return true; };
        cm_specify (c, m.m, L.mine, L.keep, all, all, true);
        if (L.r.chance (0.5))
          t8_cmesh_set_profiling (c, 1);
        if (L.r.chance (0.3))
          t8_cmesh_set_partition_offsets (c, t8_cmesh_offset_concentrate (0, st ().comm, m.n ()));
      }
      else if (ci >= 0) {
        const t8_cmesh_t from = L.pool[ci].c;
        if (si >= 0) {
          const t8_scheme *s = L.pool[si].s;
          s->ref ();
          t8_cmesh_set_partition_uniform (c, 1, s);
        }
        give (L, ci);
        t8_cmesh_set_derive (c, from);
      }
    }
    if (L.r.chance (0.3)) {
      t8_cmesh_ref (c);
      t8_cmesh_t d = c;
      t8_cmesh_unref (&d);
    }
    if (L.r.chance (0.5))
      t8_cmesh_destroy (&c);
    else
      t8_cmesh_unref (&c);
    VF_CHECK (c == NULL, "life-handle", "the handle of a destroyed coarse mesh is not NULL");
  }
  else {
    note (L, fmt ("abandon forest %d", k));
    t8_forest_t f;
    t8_forest_init (&f);
    if (k == 5 && ci >= 0) {
      const t8_cmesh_t c = L.pool[ci].c;
      give (L, ci);
      t8_forest_set_cmesh (f, c, st ().comm);
    }
    const int sj = find (L, Obj::SCHEME);
    if ((k == 5 || k == 6) && sj >= 0) {
      const t8_scheme *s = L.pool[sj].s;
      give (L, sj);
      t8_forest_set_scheme (f, s);
      t8_forest_set_level (f, 3);
    }
    if (k >= 7 && fi >= 0) {
      const t8_forest_t from = L.pool[fi].f;
      give (L, fi);
      if (k == 7)
        t8_forest_set_copy (f, from);
      else if (k == 8) {
        t8_forest_set_adapt (f, from, cb_some, 1);
        t8_forest_set_partition (f, NULL, 0);
      }
      else
        t8_forest_set_balance (f, from, 0);
      t8_forest_set_ghost (f, 1, T8_GHOST_FACES);
    }
    if (L.r.chance (0.3))
      t8_forest_set_profiling (f, 1);
    if (L.r.chance (0.1))
      t8_forest_set_profiling (f, 0);
    if (L.r.chance (0.3)) {
      t8_forest_ref (f);
      t8_forest_t g = f;
      t8_forest_unref (&g);
    }
    t8_forest_unref (&f);
    VF_CHECK (f == NULL, "life-handle", "the handle of a destroyed forest is not NULL");
  }
  count ("abandoned");
}
/* objects inside others that are kept beyond their owner */
static void
extract (Life &L)
{
  const int fi = find (L, Obj::FOREST);
  if (fi < 0)
    return;
  Obj &from = L.pool[fi];
  Obj o;
  o.m = from.m;
  o.sid = from.sid;
  if (L.r.chance (0.5)) {
    o.kind = Obj::CMESH;
    o.c = t8_forest_get_cmesh (from.f);
    for (auto &x : L.pool)
      if (x.kind == Obj::CMESH && x.c == o.c)
        return;
    note (L, "cmesh of " + name (from));
    t8_cmesh_ref (o.c);
    o.geom = from.geom;
    o.part = t8_cmesh_is_partitioned (o.c);
    add (L, o);
  }
  else {
    o.kind = Obj::SCHEME;
    o.s = t8_forest_get_scheme (from.f);
    for (auto &x : L.pool)
      if (x.kind == Obj::SCHEME && x.s == o.s)
        return;
    note (L, "scheme of " + name (from));
    o.s->ref ();
    add (L, o);
  }
  count ("extracted");
}
static void
drop (Life &L, int i)
{
  Obj &o = L.pool[i];
  note (L, fmt ("release %s (%d)", name (o).c_str (), o.refs));
  if (--o.refs > 0) {
    release (o);
    return;
  }
  for (; o.mine > 0; --o.mine)
    release (o);
  const Obj x = o;
  L.pool.erase (L.pool.begin () + i);
  bool other = false;
  for (auto &y : L.pool)
    other = other || (x.kind == Obj::CMESH && y.kind == Obj::FOREST);
  if (x.kind == Obj::CMESH && !other && L.r.chance (0.3)) {
    /* the last reference, as far as the program knows */
    t8_cmesh_t c = x.c;
    t8_cmesh_unref (&c);
  }
  else {
    Obj y = x;
    release (y);
  }
  count ("released");
}
static void
watch (Life &L)
{
  for (auto &o : L.pool) {
    VF_CHECK (digest (o) == o.digest, "life-changed", "%s is not what it was after its creation", name (o).c_str ());
    count ("objects_read");
  }
  std::set<u64> need;
  for (auto &o : L.pool)
    if (o.geom)
      need.insert (o.geom);
  VF_CHECK (!g_geom_bad, "life-geometry-twice", "a geometry was destroyed twice");
  for (u64 g : need)
    VF_CHECK (g_geom_alive.count (g) && g_geom_alive[g] == 1, "life-geometry-early", "geometry %llu is needed by a living mesh but %d of it exist",
              (unsigned long long) g, g_geom_alive.count (g) ? g_geom_alive[g] : 0);
  for (auto &kv : g_geom_alive)
    VF_CHECK (need.count (kv.first), "life-geometry-late", "geometry %llu still exists although no living mesh needs it", (unsigned long long) kv.first);
  count ("watches");
}
static void
run_case (i64 k, u64 seed)
{
  const int before = held_blocks ();
  {
    Life L (seed);
    L.hist = fmt ("case %lld:", (long long) k);
    note (L, "start");
    const int nops = L.r.range (4, 22);
    std::string shape;
    for (int i = 0; i < nops && !any_violation (); ++i) {
      const int k2 = L.r.range (0, 15);
      if (k2 <= 1)
        new_scheme (L);
      else if (k2 <= 4)
        new_cmesh (L);
      else if (k2 <= 8)
        new_forest (L);
      else if (k2 == 9)
        abandon (L);
      else if (k2 == 10)
        extract (L);
      else if (k2 <= 12 && !L.pool.empty ())
        drop (L, (int) L.r.below (L.pool.size ()));
      else if (k2 == 13 && !L.pool.empty ()) {
        Obj &o = L.pool[L.r.below (L.pool.size ())];
        note (L, "ref " + name (o));
        retain (o);
        ++o.refs;
      }
      else if (!L.pool.empty ()) {
        /* this rank alone takes or returns more references */
        Obj &o = L.pool[L.mine.below (L.pool.size ())];
        if (o.mine > 0 && L.mine.chance (0.6)) {
          release (o);
          --o.mine;
        }
        else {
          retain (o);
          ++o.mine;
        }
        count ("private_references");
      }
      shape += (char) ('a' + k2);
      watch (L);
      if (L.pool.size () > 9)
        drop (L, (int) L.r.below (L.pool.size ()));
    }
    if (any_violation ())
      return;
    while (!L.pool.empty ()) {
      drop (L, (int) L.r.below (L.pool.size ()));
      if (L.r.chance (0.5))
        watch (L);
    }
    watch (L);
    note (L, "end");
    if (k < 2)
      sample (L.hist.substr (0, 500));
    seen ("histories", hash_str (L.hist));
    count ("cases");
  }
  VF_CHECK (held_blocks () == before, "leak", "%d blocks held after the last release, %d before", held_blocks (), before);
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  const i64 n = (i64) (opt_int ("n", 40) * st ().scale);
  if (has_opt ("plant-leak")) /* does the scan see anything? */
    for (int i = 0; i < 5; ++i)
      (void) t8_geometry_linear_new ();
  Rng r (comb (st ().seed, 1717));
  for (i64 k = 0; k < n; ++k) {
    const u64 s = r.next ();
    if (st ().only_case >= 0 && st ().only_case != k)
      continue;
    run_case (k, s);
    if (any_violation ())
      break;
  }
  return finish ();
}
