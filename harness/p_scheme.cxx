/* C01-C04: element schemes.  Workload: exhaustive trees to a depth plus random and extreme deep paths down to
 * the maximum level.  Oracles: the path model (a list of child numbers) and exact integer geometry. */
#include "shapes.hxx"
#include <t8_schemes/t8_scheme.h>
#include <functional>
using namespace vf;

/* Every call of the scheme goes through its C++ method or through the function of the C interface, in turn. */
struct Both
{
  const t8_scheme *s = NULL;
  mutable u64 n = 0;
  operator const t8_scheme * () const
  {
    return s;
  }
  const Both *
  operator->() const
  {
    return this;
  }
  bool
  c () const
  {
    const bool b = mix (++n) & 1;
    if (b)
      ++c_calls;
    return b;
  }
  mutable i64 c_calls = 0;
  auto
  element_get_level (t8_eclass_t t, const t8_element_t *a0) const
  {
    return c () ? t8_element_get_level (s, t, a0) : s->element_get_level (t, a0);
  }
  auto
  element_copy (t8_eclass_t t, const t8_element_t *a0, t8_element_t *a1) const
  {
    return c () ? t8_element_copy (s, t, a0, a1) : s->element_copy (t, a0, a1);
  }
  auto
  element_compare (t8_eclass_t t, const t8_element_t *a0, const t8_element_t *a1) const
  {
    return c () ? t8_element_compare (s, t, a0, a1) : s->element_compare (t, a0, a1);
  }
  auto
  element_is_equal (t8_eclass_t t, const t8_element_t *a0, const t8_element_t *a1) const
  {
    return c () ? t8_element_is_equal (s, t, a0, a1) : s->element_is_equal (t, a0, a1);
  }
  auto
  element_get_parent (t8_eclass_t t, const t8_element_t *a0, t8_element_t *a1) const
  {
    return c () ? t8_element_get_parent (s, t, a0, a1) : s->element_get_parent (t, a0, a1);
  }
  auto
  element_get_num_siblings (t8_eclass_t t, const t8_element_t *a0) const
  {
    return c () ? t8_element_get_num_siblings (s, t, a0) : s->element_get_num_siblings (t, a0);
  }
  auto
  element_get_sibling (t8_eclass_t t, const t8_element_t *a0, int a1, t8_element_t *a2) const
  {
    return c () ? t8_element_get_sibling (s, t, a0, a1, a2) : s->element_get_sibling (t, a0, a1, a2);
  }
  auto
  element_get_num_faces (t8_eclass_t t, const t8_element_t *a0) const
  {
    return c () ? t8_element_get_num_faces (s, t, a0) : s->element_get_num_faces (t, a0);
  }
  auto
  element_get_max_num_faces (t8_eclass_t t, const t8_element_t *a0) const
  {
    return c () ? t8_element_get_max_num_faces (s, t, a0) : s->element_get_max_num_faces (t, a0);
  }
  auto
  element_get_num_children (t8_eclass_t t, const t8_element_t *a0) const
  {
    return c () ? t8_element_get_num_children (s, t, a0) : s->element_get_num_children (t, a0);
  }
  auto
  element_get_num_face_children (t8_eclass_t t, const t8_element_t *a0, int a1) const
  {
    return c () ? t8_element_get_num_face_children (s, t, a0, a1) : s->element_get_num_face_children (t, a0, a1);
  }
  auto
  element_get_face_corner (t8_eclass_t t, const t8_element_t *a0, int a1, int a2) const
  {
    return c () ? t8_element_get_face_corner (s, t, a0, a1, a2) : s->element_get_face_corner (t, a0, a1, a2);
  }
  auto
  element_get_corner_face (t8_eclass_t t, const t8_element_t *a0, int a1, int a2) const
  {
    return c () ? t8_element_get_corner_face (s, t, a0, a1, a2) : s->element_get_corner_face (t, a0, a1, a2);
  }
  auto
  element_get_child (t8_eclass_t t, const t8_element_t *a0, int a1, t8_element_t *a2) const
  {
    return c () ? t8_element_get_child (s, t, a0, a1, a2) : s->element_get_child (t, a0, a1, a2);
  }
  auto
  element_get_children (t8_eclass_t t, const t8_element_t *a0, int a1, t8_element_t **a2) const
  {
    return c () ? t8_element_get_children (s, t, a0, a1, a2) : s->element_get_children (t, a0, a1, a2);
  }
  auto
  element_get_child_id (t8_eclass_t t, const t8_element_t *a0) const
  {
    return c () ? t8_element_get_child_id (s, t, a0) : s->element_get_child_id (t, a0);
  }
  auto
  element_get_ancestor_id (t8_eclass_t t, const t8_element_t *a0, int a1) const
  {
    return c () ? t8_element_get_ancestor_id (s, t, a0, a1) : s->element_get_ancestor_id (t, a0, a1);
  }
  auto
  elements_are_family (t8_eclass_t t, t8_element_t *const *a0) const
  {
    return c () ? t8_elements_are_family (s, t, a0) : s->elements_are_family (t, a0);
  }
  auto
  element_get_nca (t8_eclass_t t, const t8_element_t *a0, const t8_element_t *a1, t8_element_t *a2) const
  {
    return c () ? t8_element_get_nca (s, t, a0, a1, a2) : s->element_get_nca (t, a0, a1, a2);
  }
  auto
  element_get_face_shape (t8_eclass_t t, const t8_element_t *a0, int a1) const
  {
    return c () ? t8_element_get_face_shape (s, t, a0, a1) : s->element_get_face_shape (t, a0, a1);
  }
  auto
  element_get_children_at_face (t8_eclass_t t, const t8_element_t *a0, int a1, t8_element_t **a2, int a3, int *a4) const
  {
    return c () ? t8_element_get_children_at_face (s, t, a0, a1, a2, a3, a4) : s->element_get_children_at_face (t, a0, a1, a2, a3, a4);
  }
  auto
  element_face_get_child_face (t8_eclass_t t, const t8_element_t *a0, int a1, int a2) const
  {
    return c () ? t8_element_face_get_child_face (s, t, a0, a1, a2) : s->element_face_get_child_face (t, a0, a1, a2);
  }
  auto
  element_face_get_parent_face (t8_eclass_t t, const t8_element_t *a0, int a1) const
  {
    return c () ? t8_element_face_get_parent_face (s, t, a0, a1) : s->element_face_get_parent_face (t, a0, a1);
  }
  auto
  element_get_tree_face (t8_eclass_t t, const t8_element_t *a0, int a1) const
  {
    return c () ? t8_element_get_tree_face (s, t, a0, a1) : s->element_get_tree_face (t, a0, a1);
  }
  auto
  element_transform_face (t8_eclass_t t, const t8_element_t *a0, t8_element_t *a1, int a2, int a3, int a4) const
  {
    return c () ? t8_element_transform_face (s, t, a0, a1, a2, a3, a4) : s->element_transform_face (t, a0, a1, a2, a3, a4);
  }
  auto
  element_extrude_face (t8_eclass_t t, const t8_element_t *a0, t8_element_t *a1, int a2) const
  {
    return c () ? t8_element_extrude_face (s, t, a0, a1, a2) : s->element_extrude_face (t, a0, a1, a2);
  }
  auto
  element_get_boundary_face (t8_eclass_t t, const t8_element_t *a0, int a1, t8_element_t *a2) const
  {
    return c () ? t8_element_get_boundary_face (s, t, a0, a1, a2) : s->element_get_boundary_face (t, a0, a1, a2);
  }
  auto
  element_get_first_descendant_face (t8_eclass_t t, const t8_element_t *a0, int a1, t8_element_t *a2, int a3) const
  {
    return c () ? t8_element_get_first_descendant_face (s, t, a0, a1, a2, a3) : s->element_get_first_descendant_face (t, a0, a1, a2, a3);
  }
  auto
  element_get_last_descendant_face (t8_eclass_t t, const t8_element_t *a0, int a1, t8_element_t *a2, int a3) const
  {
    return c () ? t8_element_get_last_descendant_face (s, t, a0, a1, a2, a3) : s->element_get_last_descendant_face (t, a0, a1, a2, a3);
  }
  auto
  element_is_root_boundary (t8_eclass_t t, const t8_element_t *a0, int a1) const
  {
    return c () ? t8_element_is_root_boundary (s, t, a0, a1) : s->element_is_root_boundary (t, a0, a1);
  }
  auto
  element_get_face_neighbor_inside (t8_eclass_t t, const t8_element_t *a0, t8_element_t *a1, int a2, int *a3) const
  {
    return c () ? t8_element_get_face_neighbor_inside (s, t, a0, a1, a2, a3) : s->element_get_face_neighbor_inside (t, a0, a1, a2, a3);
  }
  auto
  element_get_shape (t8_eclass_t t, const t8_element_t *a0) const
  {
    return c () ? t8_element_get_shape (s, t, a0) : s->element_get_shape (t, a0);
  }
  auto
  element_set_linear_id (t8_eclass_t t, t8_element_t *a0, int a1, t8_linearidx_t a2) const
  {
    return c () ? t8_element_set_linear_id (s, t, a0, a1, a2) : s->element_set_linear_id (t, a0, a1, a2);
  }
  auto
  element_get_linear_id (t8_eclass_t t, const t8_element_t *a0, int a1) const
  {
    return c () ? t8_element_get_linear_id (s, t, a0, a1) : s->element_get_linear_id (t, a0, a1);
  }
  auto
  element_get_first_descendant (t8_eclass_t t, const t8_element_t *a0, t8_element_t *a1, int a2) const
  {
    return c () ? t8_element_get_first_descendant (s, t, a0, a1, a2) : s->element_get_first_descendant (t, a0, a1, a2);
  }
  auto
  element_get_last_descendant (t8_eclass_t t, const t8_element_t *a0, t8_element_t *a1, int a2) const
  {
    return c () ? t8_element_get_last_descendant (s, t, a0, a1, a2) : s->element_get_last_descendant (t, a0, a1, a2);
  }
  auto
  element_get_reference_coords (t8_eclass_t t, const t8_element_t *a0, const double *a1, size_t a2, double *a3) const
  {
    return c () ? t8_element_get_reference_coords (s, t, a0, a1, a2, a3) : s->element_get_reference_coords (t, a0, a1, a2, a3);
  }
  auto
  element_count_leaves (t8_eclass_t t, const t8_element_t *a0, int a1) const
  {
    return c () ? t8_element_count_leaves (s, t, a0, a1) : s->element_count_leaves (t, a0, a1);
  }
  auto
  element_get_vertex_reference_coords (t8_eclass_t t, const t8_element_t *a0, int a1, double *a2) const
  {
    return c () ? t8_element_get_vertex_reference_coords (s, t, a0, a1, a2) : s->element_get_vertex_reference_coords (t, a0, a1, a2);
  }
  auto
  element_get_num_corners (t8_eclass_t t, const t8_element_t *a0) const
  {
    return c () ? t8_element_get_num_corners (s, t, a0) : s->element_get_num_corners (t, a0);
  }
  auto
  element_construct_successor (t8_eclass_t t, const t8_element_t *a0, t8_element_t *a1) const
  {
    return c () ? t8_element_get_successor (s, t, a0, a1) : s->element_construct_successor (t, a0, a1);
  }
  auto
  element_is_refinable (t8_eclass_t t, const t8_element_t *a0) const
  {
    return c () ? ::element_is_refinable (s, t, a0) : s->element_is_refinable (t, a0);
  }
  auto
  count_leaves_from_root (t8_eclass_t t, int a0) const
  {
    return c () ? t8_element_count_leaves_from_root (s, t, a0) : s->count_leaves_from_root (t, a0);
  }
  auto
  get_maxlevel (t8_eclass_t t) const
  {
    return c () ? t8_element_get_maxlevel (s, t) : s->get_maxlevel (t);
  }
  auto
  get_max_num_children (t8_eclass_t t) const
  {
    return c () ? t8_get_max_num_children (s, t) : s->get_max_num_children (t);
  }
  auto
  refines_irregular (t8_eclass_t t) const
  {
    return c () ? t8_element_refines_irregular (s, t) : s->refines_irregular (t);
  }
  auto
  get_element_size (t8_eclass_t t) const
  {
    return c () ? t8_element_get_element_size (s, t) : s->get_element_size (t);
  }
  auto
  set_to_root (t8_eclass_t t, t8_element_t *a0) const
  {
    return c () ? t8_element_set_to_root (s, t, a0) : s->set_to_root (t, a0);
  }
  auto
  element_new (t8_eclass_t t, int a0, t8_element_t **a1) const
  {
    return c () ? t8_element_new (s, t, a0, a1) : s->element_new (t, a0, a1);
  }
  auto
  element_destroy (t8_eclass_t t, int a0, t8_element_t **a1) const
  {
    return c () ? t8_element_destroy (s, t, a0, a1) : s->element_destroy (t, a0, a1);
  }
  auto
  element_is_ancestor (t8_eclass_t t, const t8_element_t *a, const t8_element_t *b) const
  {
    return s->element_is_ancestor (t, a, b);
  }
  auto
  element_face_get_ancestor_face (t8_eclass_t t, const t8_element_t *a, int l, int f) const
  {
    return s->element_face_get_ancestor_face (t, a, l, f);
  }
};
static Both S;
static int scheme_id;
static t8_eclass_t EC;
static int K; /* max level */

typedef std::vector<int> Path;

static bool
has_sibling ()
{
  return (scheme_id == 0 && (EC == T8_ECLASS_QUAD || EC == T8_ECLASS_HEX))
         || EC == T8_ECLASS_TRIANGLE || EC == T8_ECLASS_TET;
}
static bool
has_corner_face ()
{
  if (scheme_id == 1 && (EC == T8_ECLASS_LINE || EC == T8_ECLASS_QUAD || EC == T8_ECLASS_HEX))
    return true;
  return EC == T8_ECLASS_QUAD || EC == T8_ECLASS_HEX || EC == T8_ECLASS_TRIANGLE;
}

static std::string
pstr (const Path &p)
{
  std::string r = "/";
  for (int c : p)
    r += std::to_string (c) + ".";
  return r;
}
static u64
phash (const Path &p)
{
  u64 h = mix (scheme_id * 16 + (int) EC);
  for (int c : p)
    h = comb (h, c + 1);
  return h;
}

static El
from_path (const Path &p)
{
  El e (S, EC), c (S, EC);
  S->set_to_root (EC, e);
  for (int i : p) {
    S->element_get_child (EC, e, i, c);
    S->element_copy (EC, c, e);
  }
  return e;
}

/* model: number of descendants of a shape after d uniform refinements */
static i128
model_leaves (int shape, int d)
{
  static std::map<std::pair<int, int>, i128> memo;
  if (d == 0)
    return 1;
  if (shape == PYR)
    return 6 * model_leaves (PYR, d - 1) + 4 * model_leaves (TET, d - 1);
  i128 r = 1;
  static const int nc[8] = { 1, 2, 4, 4, 8, 8, 8, 10 };
  for (int i = 0; i < d; ++i)
    r *= nc[shape];
  return r;
}

/* shapes of the children on the way: memo by walking */
struct Walk
{
  std::vector<El> chain;                    /* chain[k]: ancestor at level k */
  std::vector<std::vector<int>> sib_shapes; /* shapes of the children of chain[k] */
};
static Walk
walk (const Path &p)
{
  Walk w;
  El e (S, EC);
  S->set_to_root (EC, e);
  w.chain.push_back (e);
  for (size_t k = 0; k < p.size (); ++k) {
    int n = S->element_get_num_children (EC, w.chain[k]);
    std::vector<int> sh;
    El c (S, EC), keep (S, EC);
    for (int i = 0; i < n; ++i) {
      S->element_get_child (EC, w.chain[k], i, c);
      sh.push_back ((int) S->element_get_shape (EC, c));
      if (i == p[k])
        keep = c;
    }
    w.sib_shapes.push_back (sh);
    w.chain.push_back (keep);
  }
  return w;
}
/* model linear id of path p at uniform level L >= |p| (id of its first descendant) or L<|p| (ancestor) */
static i128
model_id (const Path &p, const Walk &w, int L)
{
  i128 id = 0;
  for (int k = 0; k < (int) p.size () && k < L; ++k)
    for (int i = 0; i < p[k]; ++i)
      id += model_leaves (w.sib_shapes[k][i], L - k - 1);
  return id;
}

static bool
eq (const t8_element_t *a, const t8_element_t *b)
{
  return S->element_is_equal (EC, a, b) != 0;
}
/* identity through geometry, independent of is_equal/compare */
static bool
geq (const t8_element_t *a, const t8_element_t *b)
{
  return same_geo (geo_of (S, EC, a, K), geo_of (S, EC, b, K));
}

static int
cmp_path (const Path &a, const Path &b)
{
  size_t n = std::min (a.size (), b.size ());
  for (size_t i = 0; i < n; ++i)
    if (a[i] != b[i])
      return a[i] < b[i] ? -1 : 1;
  return a.size () < b.size () ? -1 : a.size () > b.size () ? 1 : 0;
}

/* ---------------- C01 ---------------- */
static void
check_c01 (const Path &p, Rng &rng)
{
  Walk w = walk (p);
  const int l = (int) p.size ();
  El e = w.chain[l];
  El tmp (S, EC), tmp2 (S, EC);
  VF_CHECK (S->element_get_level (EC, e) == l, "C01-level", "level %d, path length %d", S->element_get_level (EC, e), l);
  VF_CHECK ((S->element_is_refinable (EC, e) != 0) == (l < K), "C01-refinable", "is_refinable wrong at level %d of %d", l, K);
  for (int k = 1; k <= l; ++k) {
    int a = S->element_get_ancestor_id (EC, e, k);
    VF_CHECK (a == p[k - 1], "C01-ancestor-id", "ancestor_id(level %d) = %d, path says %d", k, a, p[k - 1]);
  }
  for (int k = 0; k <= l; ++k) {
    VF_CHECK (S->element_is_ancestor (EC, w.chain[k], e), "C01-is-ancestor", "level-%d ancestor not recognised", k);
    if (k < l)
      VF_CHECK (!S->element_is_ancestor (EC, e, w.chain[k]), "C01-is-ancestor", "descendant taken for ancestor (level %d)", k);
    S->element_get_nca (EC, w.chain[k], e, tmp);
    VF_CHECK (eq (tmp, w.chain[k]) && geq (tmp, w.chain[k]), "C01-nca", "nca(ancestor at %d, e) is not that ancestor", k);
    S->element_get_nca (EC, e, w.chain[k], tmp);
    VF_CHECK (eq (tmp, w.chain[k]), "C01-nca", "nca(e, ancestor at %d) is not that ancestor", k);
  }
  if (l > 0) {
    S->element_get_parent (EC, e, tmp);
    VF_CHECK (eq (tmp, w.chain[l - 1]) && geq (tmp, w.chain[l - 1]), "C01-parent", "parent wrong");
    VF_CHECK (S->element_get_child_id (EC, e) == p[l - 1], "C01-child-id", "child id %d expected %d",
              S->element_get_child_id (EC, e), p[l - 1]);
    VF_CHECK (S->element_get_num_siblings (EC, e) == (int) w.sib_shapes[l - 1].size (), "C01-num-siblings",
              "num_siblings %d expected %d", S->element_get_num_siblings (EC, e), (int) w.sib_shapes[l - 1].size ());
    /* in place */
    S->element_copy (EC, e, tmp2);
    S->element_get_parent (EC, tmp2, tmp2);
    VF_CHECK (eq (tmp2, w.chain[l - 1]), "C01-parent-inplace", "in-place parent wrong");
    if (has_sibling ())
      for (int i = 0; i < (int) w.sib_shapes[l - 1].size (); ++i) {
        S->element_get_child (EC, w.chain[l - 1], i, tmp);
        S->element_get_sibling (EC, e, i, tmp2);
        VF_CHECK (eq (tmp, tmp2) && geq (tmp, tmp2), "C01-sibling", "sibling %d wrong", i);
        count ("sibling_checks");
      }
  }
  count ("elements");
  seen ("elements", phash (p));
  if (l < K && EC != T8_ECLASS_VERTEX) {
    int n = S->element_get_num_children (EC, e);
    VF_CHECK (n >= 1 && n <= S->get_max_num_children (EC), "C01-num-children", "%d children, max %d", n,
              S->get_max_num_children (EC));
    std::vector<t8_element_t *> c (n), fam (n);
    S->element_new (EC, n, c.data ());
    S->element_get_children (EC, e, n, c.data ());
    std::set<u64> gh;
    for (int i = 0; i < n; ++i) {
      S->element_get_child (EC, e, i, tmp);
      VF_CHECK (eq (tmp, c[i]) && geq (tmp, c[i]), "C01-children", "child(%d) differs from children[%d]", i, i);
      VF_CHECK (S->element_get_level (EC, c[i]) == l + 1, "C01-child-level", "child %d has level %d", i,
                S->element_get_level (EC, c[i]));
      VF_CHECK (S->element_get_child_id (EC, c[i]) == i, "C01-child-id", "child %d says child id %d", i,
                S->element_get_child_id (EC, c[i]));
      S->element_get_parent (EC, c[i], tmp);
      VF_CHECK (eq (tmp, e) && geq (tmp, e), "C01-parent", "parent of child %d is not the element", i);
      VF_CHECK (S->element_get_num_siblings (EC, c[i]) == n, "C01-num-siblings", "child %d reports %d siblings of %d", i,
                S->element_get_num_siblings (EC, c[i]), n);
      VF_CHECK (S->element_is_ancestor (EC, e, c[i]) && !S->element_is_ancestor (EC, c[i], e), "C01-is-ancestor",
                "element/child %d", i);
      gh.insert (geo_hash (geo_of (S, EC, c[i], K)));
      for (int j = 0; j < i; ++j) {
        VF_CHECK (!eq (c[i], c[j]), "C01-distinct", "children %d and %d are equal", i, j);
        S->element_get_nca (EC, c[i], c[j], tmp);
        VF_CHECK (eq (tmp, e), "C01-nca", "nca of children %d,%d is not the parent", i, j);
        VF_CHECK (!S->element_is_ancestor (EC, c[i], c[j]) && !S->element_is_ancestor (EC, c[j], c[i]), "C01-is-ancestor",
                  "sibling %d,%d taken for ancestor", i, j);
      }
      count ("children");
    }
    VF_CHECK ((int) gh.size () == n, "C01-distinct", "only %d geometrically distinct children of %d", (int) gh.size (), n);
    /* in place variants */
    S->element_copy (EC, e, tmp);
    int r = (int) rng.below (n);
    S->element_get_child (EC, tmp, r, tmp);
    VF_CHECK (eq (tmp, c[r]), "C01-child-inplace", "in-place child %d wrong", r);
    std::vector<t8_element_t *> c2 (n);
    S->element_new (EC, n, c2.data ());
    S->element_copy (EC, e, c2[0]);
    S->element_get_children (EC, c2[0], n, c2.data ());
    for (int i = 0; i < n; ++i)
      VF_CHECK (eq (c2[i], c[i]), "C01-children-inplace", "in-place children[%d] wrong", i);
    /* families */
    VF_CHECK (S->elements_are_family (EC, c.data ()), "C01-family", "children not recognised as family");
    if (n > 1) {
      /* reordered */
      for (int t = 0; t < 3; ++t) {
        fam = c;
        int a = (int) rng.below (n), b = (int) rng.below (n);
        if (a == b)
          b = (a + 1) % n;
        std::swap (fam[a], fam[b]);
        /* the number of elements read depends on the first one: stay within the array */
        if (S->element_get_num_siblings (EC, fam[0]) <= n)
          VF_CHECK (!S->elements_are_family (EC, fam.data ()), "C01-family-false", "swapped children %d,%d accepted", a, b);
        count ("family_negative");
      }
      /* one entry duplicated */
      fam = c;
      int a = (int) rng.below (n);
      fam[a] = c[(a + 1 + rng.below (n - 1)) % n];
      VF_CHECK (!S->elements_are_family (EC, fam.data ()), "C01-family-false", "duplicated child accepted at %d", a);
      /* one entry from the same position of another family (a cousin at the same level) */
      if (l > 0) {
        int np = (int) w.sib_shapes[l - 1].size ();
        for (int t = 0; t < 3; ++t) {
          int sib = (int) rng.below (np);
          if (sib == p[l - 1])
            sib = (sib + 1) % np;
          if (np == 1)
            break;
          S->element_get_child (EC, w.chain[l - 1], sib, tmp);
          int m = S->element_get_num_children (EC, tmp);
          int pos = (int) rng.below (n);
          if (pos >= m)
            continue;
          S->element_get_child (EC, tmp, pos, tmp2);
          fam = c;
          fam[pos] = tmp2;
          if (S->element_get_num_siblings (EC, fam[0]) <= n)
            VF_CHECK (!S->elements_are_family (EC, fam.data ()), "C01-family-false",
                      "family with child %d replaced by the cousin from parent sibling %d accepted", pos, sib);
          count ("family_negative");
        }
      }
      /* one entry replaced by its own child, all positions */
      if (l + 1 < K) {
        for (int pos = 0; pos < n; ++pos) {
          S->element_get_child (EC, c[pos], (int) rng.below (S->element_get_num_children (EC, c[pos])), tmp2);
          fam = c;
          fam[pos] = tmp2;
          if (S->element_get_num_siblings (EC, fam[0]) <= n)
            VF_CHECK (!S->elements_are_family (EC, fam.data ()), "C01-family-false",
                      "family with child %d replaced by a grandchild accepted", pos);
          count ("family_negative");
        }
        /* shifted window over consecutive leaves: children 1.. plus first child's children etc. */
        S->element_get_child (EC, c[n - 1], 0, tmp2);
        for (int i = 0; i + 1 < n; ++i)
          fam[i] = c[i + 1];
        fam[n - 1] = tmp2;
        if (S->element_get_num_siblings (EC, fam[0]) <= n)
          VF_CHECK (!S->elements_are_family (EC, fam.data ()), "C01-family-false", "shifted window accepted");
      }
    }
    S->element_destroy (EC, n, c.data ());
    S->element_destroy (EC, n, c2.data ());
  }
}
/* two unrelated elements: nca and ancestry are the common prefix */
static void
check_c01_pair (const Path &p, const Path &q)
{
  El a = from_path (p), b = from_path (q), n (S, EC);
  size_t k = 0;
  while (k < p.size () && k < q.size () && p[k] == q[k])
    ++k;
  El m = from_path (Path (p.begin (), p.begin () + k));
  S->element_get_nca (EC, a, b, n);
  VF_CHECK (eq (n, m) && geq (n, m), "C01-nca", "nca of %s and %s wrong", pstr (p).c_str (), pstr (q).c_str ());
  VF_CHECK ((S->element_is_ancestor (EC, a, b) != 0) == (k == p.size ()), "C01-is-ancestor", "is_ancestor(%s,%s) wrong",
            pstr (p).c_str (), pstr (q).c_str ());
  VF_CHECK ((S->element_is_ancestor (EC, b, a) != 0) == (k == q.size ()), "C01-is-ancestor", "is_ancestor(%s,%s) wrong",
            pstr (q).c_str (), pstr (p).c_str ());
  count ("pairs");
  seen ("pairs", comb (phash (p), phash (q)));
}

/* Sets that look like a family but are not: every window of consecutive elements of a uniform level. */
static void
check_c01_windows (int L)
{
  i128 n = model_leaves ((int) EC, L);
  std::vector<El> e;
  std::vector<u64> parent_id;
  std::vector<int> cid;
  for (u64 id = 0; id < (u64) n; ++id) {
    El x (S, EC), q (S, EC);
    S->element_set_linear_id (EC, x, L, id);
    S->element_get_parent (EC, x, q);
    parent_id.push_back (S->element_get_linear_id (EC, q, L - 1));
    cid.push_back (S->element_get_child_id (EC, x));
    e.push_back (std::move (x));
  }
  for (size_t i = 0; i < e.size (); ++i) {
    size_t ns = (size_t) S->element_get_num_siblings (EC, e[i]);
    if (i + ns > e.size ())
      continue;
    std::vector<t8_element_t *> fam;
    bool is = cid[i] == 0;
    for (size_t k = 0; k < ns; ++k) {
      fam.push_back (e[i + k].e);
      is &= parent_id[i + k] == parent_id[i];
    }
    ctx ("scheme %d class %s window of %zu elements from id %zu at level %d", scheme_id, S_NAME[(int) EC], ns, i, L);
    VF_CHECK ((S->elements_are_family (EC, fam.data ()) != 0) == is, is ? "C01-family" : "C01-family-false", "window family test wrong");
    count ("family_windows");
  }
}

/* ---------------- C02 ---------------- */
static void
check_c02 (const Path &p, Rng &rng)
{
  const int l = (int) p.size ();
  Walk w = walk (p);
  El e = w.chain[l], d (S, EC), f (S, EC), x (S, EC);
  int shape = (int) S->element_get_shape (EC, e);
  if (EC == T8_ECLASS_VERTEX) {
    VF_CHECK (S->element_get_linear_id (EC, e, l) == 0, "C02-id", "vertex id");
    VF_CHECK (S->element_count_leaves (EC, e, l + 3) == 1, "C02-count-leaves", "vertex leaves");
    return;
  }
  std::set<int> lv = { l, K, 0 };
  for (int i = 0; i < 5; ++i)
    lv.insert (rng.range (0, K));
  if (l + 1 <= K)
    lv.insert (l + 1);
  for (int L : lv) {
    /* ids of the finest level fit 64 bits */
    i128 mid = model_id (p, w, L);
    u64 id = S->element_get_linear_id (EC, e, L);
    VF_CHECK ((i128) id == mid, "C02-id", "linear id at level %d is %llu, model %llu", L, (unsigned long long) id,
              (unsigned long long) mid);
    count ("ids");
    seen ("ids", comb (phash (p), L));
    if (L <= l) {
      /* set_linear_id inverts */
      S->element_set_linear_id (EC, x, L, (t8_linearidx_t) mid);
      VF_CHECK (eq (x, w.chain[L]) && geq (x, w.chain[L]), "C02-set-id", "set_linear_id(level %d, %llu) is not the element", L,
                (unsigned long long) mid);
    }
    i128 ml = L < l ? 0 : model_leaves (shape, L - l);
    /* 8^21 does not fit in a 64 bit signed integer: counts are only claimed where representable */
    const i128 lim = (i128) INT64_MAX / (EC == T8_ECLASS_PYRAMID ? 2 : 1);
    t8_gloidx_t cl = ml <= lim ? S->element_count_leaves (EC, e, L) : -1;
    if (ml <= lim)
      VF_CHECK ((i128) cl == ml, "C02-count-leaves", "count_leaves(level %d) = %lld, model %lld", L, (long long) cl,
              (long long) ml);
    i128 mr = model_leaves ((int) EC, L);
    if (mr <= lim)
      VF_CHECK ((i128) S->count_leaves_from_root (EC, L) == mr, "C02-count-leaves-root", "count_leaves_from_root(%d) = %lld", L,
              (long long) S->count_leaves_from_root (EC, L));
    if (L >= l) {
      S->element_get_first_descendant (EC, e, d, L);
      S->element_get_last_descendant (EC, e, f, L);
      VF_CHECK (S->element_get_level (EC, d) == L && S->element_get_level (EC, f) == L, "C02-desc-level",
                "descendant levels %d %d, wanted %d", S->element_get_level (EC, d), S->element_get_level (EC, f), L);
      u64 i0 = S->element_get_linear_id (EC, d, L), i1 = S->element_get_linear_id (EC, f, L);
      VF_CHECK ((i128) i0 == mid, "C02-first-desc", "first descendant at %d has id %llu expected %llu", L,
                (unsigned long long) i0, (unsigned long long) mid);
      VF_CHECK ((i128) i1 == mid + ml - 1, "C02-last-desc", "last descendant at %d has id %llu expected %llu", L,
                (unsigned long long) i1, (unsigned long long) (mid + ml - 1));
      VF_CHECK (S->element_is_ancestor (EC, e, d) && S->element_is_ancestor (EC, e, f), "C02-desc-ancestor",
                "element is not ancestor of its descendants at %d", L);
      /* by path: child 0 / last child repeatedly */
      El a (S, EC, e), b (S, EC, e);
      for (int k = l; k < L; ++k) {
        S->element_get_child (EC, a, 0, a);
        S->element_get_child (EC, b, S->element_get_num_children (EC, b) - 1, b);
      }
      VF_CHECK (eq (a, d) && geq (a, d), "C02-first-desc", "first descendant at %d is not child 0 of child 0 ..", L);
      VF_CHECK (eq (b, f) && geq (b, f), "C02-last-desc", "last descendant at %d is not the last child of ..", L);
    }
  }
  /* successor at this level */
  i128 my = model_id (p, w, l), tot = model_leaves ((int) EC, l);
  if (l > 0 && my + 1 < tot) {
    S->element_construct_successor (EC, e, x);
    VF_CHECK (S->element_get_level (EC, x) == l && (i128) S->element_get_linear_id (EC, x, l) == my + 1, "C02-successor",
              "successor has level %d id %llu, expected %d %llu", S->element_get_level (EC, x),
              (unsigned long long) S->element_get_linear_id (EC, x, l), l, (unsigned long long) (my + 1));
    S->element_set_linear_id (EC, d, l, (t8_linearidx_t) (my + 1));
    VF_CHECK (eq (x, d) && geq (x, d), "C02-successor", "successor is not the element of the next id");
    /* successor by path */
    Path q = p;
    int k = l - 1;
    while (k >= 0 && q[k] + 1 >= (int) w.sib_shapes[k].size ())
      --k;
    if (k >= 0) {
      q[k]++;
      for (int j = k + 1; j < l; ++j)
        q[j] = 0;
      El y = from_path (q);
      VF_CHECK (eq (x, y) && geq (x, y), "C02-successor", "successor is not the next path %s", pstr (q).c_str ());
    }
    VF_CHECK (S->element_compare (EC, e, x) < 0 && S->element_compare (EC, x, e) > 0, "C02-compare", "element not before successor");
    count ("successors");
  }
  VF_CHECK (S->element_compare (EC, e, e) == 0 && eq (e, e), "C02-compare", "element not equal to itself");
  El cp (S, EC, e);
  VF_CHECK (S->element_compare (EC, e, cp) == 0 && eq (e, cp), "C02-compare", "element not equal to its copy");
  count ("elements");
}
static void
check_c02_pair (const Path &p, const Path &q)
{
  if (EC == T8_ECLASS_VERTEX)
    return;
  El a = from_path (p), b = from_path (q);
  int m = cmp_path (p, q);
  int c = S->element_compare (EC, a, b), r = S->element_compare (EC, b, a);
  c = c < 0 ? -1 : c > 0;
  r = r < 0 ? -1 : r > 0;
  VF_CHECK (c == m, "C02-compare", "compare(%s,%s) = %d, curve order says %d", pstr (p).c_str (), pstr (q).c_str (), c, m);
  VF_CHECK (r == -m, "C02-compare", "compare(%s,%s) = %d, curve order says %d", pstr (q).c_str (), pstr (p).c_str (), r, -m);
  VF_CHECK (eq (a, b) == (m == 0) && eq (b, a) == (m == 0), "C02-equal", "is_equal(%s,%s) wrong", pstr (p).c_str (),
            pstr (q).c_str ());
  count ("pairs");
  seen ("pairs", comb (phash (p), phash (q)));
}
/* exhaustive uniform level: bijection */
static void
check_c02_level (int L)
{
  if (EC == T8_ECLASS_VERTEX)
    return;
  i128 n = model_leaves ((int) EC, L);
  El e (S, EC), prev (S, EC), x (S, EC);
  std::unordered_set<u64> g;
  for (u64 id = 0; id < (u64) n; ++id) {
    ctx ("scheme %d class %s uniform level %d id %llu", scheme_id, S_NAME[(int) EC], L, (unsigned long long) id);
    S->element_set_linear_id (EC, e, L, id);
    VF_CHECK (S->element_get_level (EC, e) == L, "C02-set-id", "level wrong");
    VF_CHECK (S->element_get_linear_id (EC, e, L) == id, "C02-id", "id round trip");
    g.insert (geo_hash (geo_of (S, EC, e, K)));
    if (id > 0) {
      VF_CHECK (S->element_compare (EC, prev, e) < 0 && !eq (prev, e), "C02-compare", "order along the curve");
      S->element_construct_successor (EC, prev, x);
      VF_CHECK (eq (x, e), "C02-successor", "successor of id-1");
    }
    S->element_copy (EC, e, prev);
    count ("uniform_elements");
  }
  VF_CHECK ((i128) g.size () == n, "C02-bijection", "%zu distinct cells of %lld at level %d", g.size (), (long long) n, L);
}

/* ---------------- C03 ---------------- */
static void
check_c03 (const Path &p, Rng &rng)
{
  const int l = (int) p.size ();
  El e = from_path (p), c (S, EC);
  Geo g = geo_of (S, EC, e, K > 60 ? 0 : K);
  if (EC == T8_ECLASS_VERTEX)
    return;
  count ("elements");
  seen ("elements", phash (p));
  VF_CHECK (g.exact, "C03-grid", "vertex coordinates off the 2^-%d grid: %s", K, geo_str (g).c_str ());
  VF_CHECK (g.shape >= 0 && g.shape < 8 && g.nv == S_NV[g.shape] && S_DIM[g.shape] == S_DIM[(int) EC], "C03-shape",
            "shape %d corners %d", g.shape, g.nv);
  VF_CHECK (S->element_get_num_faces (EC, e) == S_NF[g.shape], "C03-shape", "num faces %d of %s", S->element_get_num_faces (EC, e),
            S_NAME[g.shape]);
  VF_CHECK (S->element_get_max_num_faces (EC, e) >= S_NF[g.shape], "C03-shape", "max num faces too small");
  if (EC != T8_ECLASS_PYRAMID)
    VF_CHECK (g.shape == (int) EC, "C03-shape", "shape %s in a %s tree", S_NAME[g.shape], S_NAME[(int) EC]);
  /* root cell */
  P3 rv[8];
  i64 N = (i64) 1 << K;
  for (int i = 0; i < S_NV[(int) EC]; ++i)
    for (int d = 0; d < 3; ++d)
      rv[i][d] = S_REF[(int) EC][i][d] * N;
  if (l == 0)
    for (int i = 0; i < g.nv; ++i)
      VF_CHECK (g.v[i] == rv[i], "C03-root", "corner %d of root is off: %s", i, geo_str (g).c_str ());
  for (int i = 0; i < g.nv; ++i)
    VF_CHECK (cell_contains ((int) EC, rv, g.v[i], false), "C03-in-root", "corner %d outside the root cell: %s", i,
              geo_str (g).c_str ());
  i128 m = signed_measure6 (g.shape, g.v);
  VF_CHECK (m != 0, "C03-orientation", "degenerate element: %s", geo_str (g).c_str ());
  count (m > 0 ? "oriented_positive" : "oriented_negative");
  /* measure: tetrahedra, triangles, boxes, prisms scale by 2^-d per level; pyramid family by the shape */
  i64 h = (i64) 1 << (K - l);
  i128 want = S_VF[g.shape];
  for (int d = 0; d < S_DIM[g.shape]; ++d)
    want *= h;
  VF_CHECK (iabs (m) == want, "C03-measure", "measure of level %d element wrong: %s", l, geo_str (g).c_str ());
  /* reference coordinate map is the affine map given by the corners */
  {
    const int sh = g.shape, dim = S_DIM[sh];
    const int np = 4 + S_NV[sh];
    std::vector<double> in, out (np * 3, -777.0), one (3);
    std::vector<std::array<double, 3>> pts;
    for (int i = 0; i < np; ++i) {
      std::array<double, 3> r = { 0, 0, 0 };
      if (i < S_NV[sh])
        for (int d = 0; d < 3; ++d)
          r[d] = S_REF[sh][i][d];
      else { /* random convex combination of the reference corners */
        double wsum = 0, wt[8];
        for (int k = 0; k < S_NV[sh]; ++k)
          wsum += wt[k] = rng.unit ();
        for (int k = 0; k < S_NV[sh]; ++k)
          for (int d = 0; d < 3; ++d)
            r[d] += wt[k] / wsum * S_REF[sh][k][d];
      }
      pts.push_back (r);
      for (int d = 0; d < 3; ++d) /* input points have stride 3, output points stride dim */
        in.push_back (r[d]);
    }
    S->element_get_reference_coords (EC, e, in.data (), np, out.data ());
    for (int i = 0; i < np; ++i) {
      /* affine coordinates of r in the reference simplex spanned by axes */
      const double *r = pts[i].data ();
      double la[3] = { 0, 0, 0 };
      /* solve r = sum la_k * (ref[ax_k]-ref[0]) by hand per shape */
      switch (sh) {
      case LINE:
        la[0] = r[0];
        break;
      case QUAD:
        la[0] = r[0], la[1] = r[1];
        break;
      case TRI: /* axes (1,0),(1,1) */
        la[1] = r[1], la[0] = r[0] - r[1];
        break;
      case HEX:
        la[0] = r[0], la[1] = r[1], la[2] = r[2];
        break;
      case TET: /* axes (1,0,0),(1,0,1),(1,1,1) */
        la[2] = r[1], la[1] = r[2] - r[1], la[0] = r[0] - r[2];
        break;
      case PRISM: /* axes (1,0,0),(1,1,0),(0,0,1) */
        la[1] = r[1], la[0] = r[0] - r[1], la[2] = r[2];
        break;
      case PYR: /* axes (1,0,0),(0,1,0),(1,1,1) */
        la[2] = r[2], la[0] = r[0] - r[2], la[1] = r[1] - r[2];
        break;
      }
      for (int d = 0; d < dim; ++d) {
        double want_d = (double) g.v[0][d];
        for (int k = 0; k < dim; ++k)
          want_d += la[k] * (double) (g.v[S_AX[sh][k]][d] - g.v[0][d]);
        want_d /= (double) N;
        double got = out[i * dim + d];
        VF_CHECK (fabs (got - want_d) <= 1e-14 + 1e-12 * ldexp (1.0, -l), "C03-refcoords",
                  "reference point %d (%g %g %g) of %s maps to %.17g in direction %d, corners say %.17g", i, r[0], r[1], r[2],
                  geo_str (g).c_str (), got, d, want_d);
        count ("ref_points");
      }
      /* batch == single */
      S->element_get_reference_coords (EC, e, &in[i * 3], 1, one.data ());
      for (int d = 0; d < dim; ++d)
        VF_CHECK (one[d] == out[i * dim + d], "C03-refcoords-batch", "point %d differs between batch and single", i);
    }
  }
  /* tiling by children */
  if (l < K) {
    int n = S->element_get_num_children (EC, e);
    std::vector<Geo> cg;
    i128 sum = 0;
    for (int i = 0; i < n; ++i) {
      S->element_get_child (EC, e, i, c);
      cg.push_back (geo_of (S, EC, c, K));
      sum += iabs (signed_measure6 (cg[i].shape, cg[i].v));
      for (int k = 0; k < cg[i].nv; ++k)
        VF_CHECK (cell_contains (g.shape, g.v, cg[i].v[k], false), "C03-child-in-parent", "corner %d of child %d outside: %s in %s",
                  k, i, geo_str (cg[i]).c_str (), geo_str (g).c_str ());
    }
    VF_CHECK (sum == iabs (m), "C03-tiling-measure", "children measures do not add up to the element (%s)", geo_str (g).c_str ());
    /* random interior points (on a finer grid): exactly one child, unless on a child boundary */
    const i64 Q = 1 << 10;
    for (int t = 0; t < 6; ++t) {
      P3 pt = { 0, 0, 0 };
      i64 wsum = 0, wt[8];
      for (int k = 0; k < g.nv; ++k)
        wsum += wt[k] = 1 + (i64) rng.below (t < 3 ? 1000 : 40);
      for (int d = 0; d < 3; ++d) {
        i128 acc = 0;
        for (int k = 0; k < g.nv; ++k)
          acc += (i128) wt[k] * g.v[k][d] * Q;
        pt[d] = (i64) (acc / wsum);
      }
      if (l == K - 1 && K > 40)
        continue;
      int strict_in = 0, closed_in = 0;
      for (int i = 0; i < n; ++i) {
        P3 v[8];
        for (int k = 0; k < cg[i].nv; ++k)
          for (int d = 0; d < 3; ++d)
            v[k][d] = cg[i].v[k][d] * Q;
        strict_in += cell_contains (cg[i].shape, v, pt, true);
        closed_in += cell_contains (cg[i].shape, v, pt, false);
      }
      P3 gv[8];
      for (int k = 0; k < g.nv; ++k)
        for (int d = 0; d < 3; ++d)
          gv[k][d] = g.v[k][d] * Q;
      if (!cell_contains (g.shape, gv, pt, false))
        continue; /* rounding moved it out */
      VF_CHECK (strict_in <= 1 && closed_in >= 1, "C03-tiling-point", "interior point in %d open / %d closed children of %s",
                strict_in, closed_in, geo_str (g).c_str ());
      count ("tiling_points");
    }
  }
}

/* ---------------- C04 ---------------- */
static P3 ROOTV[8];
static int
root_face_of (const std::vector<P3> &pts)
{
  for (int f = 0; f < S_NF[(int) EC]; ++f) {
    bool all = true;
    for (auto &q : pts)
      all &= face_contains ((int) EC, ROOTV, f, q);
    if (all)
      return f;
  }
  return -1;
}
/* Corners of face f as the scheme numbers it.  All shapes use the standard numbering (checked) except the pyramids
 * standing on their apex, whose faces 0..3 have a numbering of their own; everything else must then agree with it. */
static bool
std_numbering (const Geo &g)
{
  return g.shape != PYR || g.v[4][2] > g.v[0][2];
}
static std::vector<int>
sface (const t8_element_t *e, const Geo &g, int f)
{
  std::vector<int> r;
  for (int k = 0; k < face_nv (g.shape, f); ++k) {
    int c = S->element_get_face_corner (EC, e, f, k);
    if (c < 0 || c >= g.nv) {
      viol ("C04-face-corner", "face %d corner %d is %d", f, k, c);
      c = 0;
    }
    r.push_back (c);
  }
  return r;
}
static std::vector<P3>
sface_pts (const t8_element_t *e, const Geo &g, int f)
{
  std::vector<P3> r;
  for (int c : sface (e, g, f))
    r.push_back (g.v[c]);
  return r;
}
/* the number of the standard face with these corners */
static int
std_face (const t8_element_t *e, const Geo &g, int f)
{
  std::vector<int> c = sface (e, g, f);
  std::sort (c.begin (), c.end ());
  for (int k = 0; k < S_NF[g.shape]; ++k) {
    std::vector<int> d (S_FV[g.shape][k], S_FV[g.shape][k] + face_nv (g.shape, k));
    if (c == d)
      return k;
  }
  return -1;
}
static bool
on_face (const t8_element_t *e, const Geo &g, int f, const std::vector<P3> &pts)
{
  int sf = std_face (e, g, f);
  if (sf < 0)
    return false;
  for (auto &q : pts)
    if (!face_contains (g.shape, g.v, sf, q))
      return false;
  return true;
}
static void
check_c04 (const Path &p, Rng &rng)
{
  const int l = (int) p.size ();
  if (EC == T8_ECLASS_VERTEX)
    return;
  Walk w = walk (p);
  El e = w.chain[l], nb (S, EC), back (S, EC), x (S, EC);
  Geo g = geo_of (S, EC, e, K);
  count ("elements");
  seen ("elements", phash (p));
  const int nf = S->element_get_num_faces (EC, e);
  std::vector<std::set<int>> corner_faces (g.nv);
  for (int f = 0; f < nf; ++f) {
    const int nfc = face_nv (g.shape, f);
    VF_CHECK ((int) S->element_get_face_shape (EC, e, f) == S_FSHAPE[g.shape][f], "C04-face-shape", "face %d of %s has shape %d", f,
              S_NAME[g.shape], (int) S->element_get_face_shape (EC, e, f));
    for (int k = 0; k < nfc; ++k) {
      int c = S->element_get_face_corner (EC, e, f, k);
      if (std_numbering (g))
        VF_CHECK (c == S_FV[g.shape][f][k], "C04-face-corner", "face %d corner %d of %s is %d expected %d", f, k, S_NAME[g.shape], c,
                S_FV[g.shape][f][k]);
      if (c >= 0 && c < g.nv)
        corner_faces[c].insert (f);
    }
    VF_CHECK (std_face (e, g, f) >= 0, "C04-face-corner", "corners of face %d are not a face of %s", f, geo_str (g).c_str ());
    for (int f2 = 0; f2 < f; ++f2)
      VF_CHECK (std_face (e, g, f) != std_face (e, g, f2), "C04-face-corner", "faces %d and %d have the same corners", f, f2);
    std::vector<P3> fp = sface_pts (e, g, f);
    const int rf = root_face_of (fp);
    const bool bd = S->element_is_root_boundary (EC, e, f) != 0;
    VF_CHECK (bd == (rf >= 0), "C04-root-boundary", "face %d of %s: is_root_boundary %d, geometry says root face %d", f,
              geo_str (g).c_str (), bd, rf);
    if (rf >= 0 && bd) {
      int tf = S->element_get_tree_face (EC, e, f);
      VF_CHECK (tf == rf, "C04-tree-face", "tree face %d expected %d", tf, rf);
    }
    /* neighbour */
    int nface = -7;
    int inside = S->element_get_face_neighbor_inside (EC, e, nb, f, &nface);
    VF_CHECK ((inside != 0) == (rf < 0), "C04-neighbor-inside", "face %d: neighbor inside = %d but root face = %d: %s", f, inside, rf,
              geo_str (g).c_str ());
    count ("faces");
    if (inside && rf < 0) {
      Geo n = geo_of (S, EC, nb, K);
      VF_CHECK (n.level == g.level && S->element_get_level (EC, nb) == l, "C04-neighbor-level", "neighbor level %d", n.level);
      VF_CHECK (nface >= 0 && nface < S_NF[n.shape], "C04-dual-face", "dual face %d", nface);
      if (nface >= 0 && nface < S_NF[n.shape]) {
        VF_CHECK (sorted_pts (sface_pts (nb, n, nface)) == sorted_pts (fp), "C04-neighbor-geometry",
                  "face %d of %s and dual face %d of neighbor %s are different faces", f, geo_str (g).c_str (), nface,
                  geo_str (n).c_str ());
        VF_CHECK (!same_geo (g, n), "C04-neighbor-geometry", "neighbor is the element itself");
        int bf = -7;
        int in2 = S->element_get_face_neighbor_inside (EC, nb, back, nface, &bf);
        VF_CHECK (in2 && bf == f && eq (back, e) && geq (back, e), "C04-neighbor-symmetric", "neighbor across face %d does not point back",
                  f);
      }
      /* neighbour lies in the tree and is a proper element: its id round-trips */
      El y (S, EC);
      u64 id = S->element_get_linear_id (EC, nb, l);
      S->element_set_linear_id (EC, y, l, id);
      VF_CHECK (eq (y, nb) && geq (y, nb), "C04-neighbor-element", "neighbor across face %d is not the element of its own id", f);
      count ("inside_neighbors");
    }
    /* parent face */
    if (l > 0) {
      Geo pg = geo_of (S, EC, w.chain[l - 1], K);
      int want = -1;
      for (int pf = 0; pf < S_NF[pg.shape]; ++pf) {
        if (on_face (w.chain[l - 1], pg, pf, fp))
          want = pf;
      }
      int got = S->element_face_get_parent_face (EC, e, f);
      VF_CHECK (got == want, "C04-parent-face", "face %d of %s (parent %s): parent face %d expected %d", f, geo_str (g).c_str (),
                geo_str (pg).c_str (), got, want);
      count (want >= 0 ? "parent_faces" : "inner_faces");
      /* ancestor face at a random level, only defined along a chain of faces */
      int al = rng.range (0, l);
      Geo ag = geo_of (S, EC, w.chain[al], K);
      int wanta = -1;
      for (int pf = 0; pf < S_NF[ag.shape]; ++pf) {
        if (on_face (w.chain[al], ag, pf, fp))
          wanta = pf;
      }
      int gota = S->element_face_get_ancestor_face (EC, e, al, f);
      VF_CHECK (gota == wanta, "C04-ancestor-face", "face %d: ancestor face at level %d is %d expected %d (%s)", f, al, gota, wanta,
                geo_str (g).c_str ());
    }
    /* children at face */
    if (l < K) {
      int n = S->element_get_num_children (EC, e);
      std::vector<int> want_id, want_face;
      for (int i = 0; i < n; ++i) {
        S->element_get_child (EC, e, i, x);
        Geo c = geo_of (S, EC, x, K);
        for (int cf = 0; cf < S_NF[c.shape]; ++cf) {
          if (on_face (e, g, f, sface_pts (x, c, cf))) {
            want_id.push_back (i);
            want_face.push_back (cf);
          }
        }
      }
      int m = S->element_get_num_face_children (EC, e, f);
      VF_CHECK (m == (int) want_id.size (), "C04-num-face-children", "face %d of %s: %d face children, geometry says %d", f,
                geo_str (g).c_str (), m, (int) want_id.size ());
      if (m > 0 && m == (int) want_id.size ()) {
        std::vector<t8_element_t *> fc (m);
        std::vector<int> idx (m, -1);
        S->element_new (EC, m, fc.data ());
        S->element_get_children_at_face (EC, e, f, fc.data (), m, idx.data ());
        for (int i = 0; i < m; ++i) {
          S->element_get_child (EC, e, want_id[i], x);
          VF_CHECK (idx[i] == want_id[i] && eq (fc[i], x) && geq (fc[i], x), "C04-children-at-face",
                    "face %d: face child %d has child id %d expected %d", f, i, idx[i], want_id[i]);
          int cf = S->element_face_get_child_face (EC, e, f, i);
          VF_CHECK (cf == want_face[i], "C04-child-face", "face %d: child face of face child %d is %d expected %d (%s)", f, i, cf,
                    want_face[i], geo_str (g).c_str ());
          count ("face_children");
        }
        S->element_copy (EC, e, fc[0]);
        S->element_get_children_at_face (EC, fc[0], f, fc.data (), m, NULL);
        for (int i = 0; i < m; ++i) {
          S->element_get_child (EC, e, want_id[i], x);
          VF_CHECK (eq (fc[i], x), "C04-children-at-face-inplace", "in place face child %d wrong", i);
        }
        S->element_destroy (EC, m, fc.data ());
      }
      /* first/last descendant at face: follow first/last face child by geometry */
      int L = rng.chance (0.15) ? l : std::min (K, l + 1 + (int) rng.below (rng.chance (0.3) ? (u64) (K - l) : 4));
      for (int last = 0; last < 2; ++last) {
        El d (S, EC, e), y (S, EC);
        for (int k = l; k < L; ++k) {
          int nn = S->element_get_num_children (EC, d), best = -1;
          for (int i = 0; i < nn; ++i) {
            int ii = last ? nn - 1 - i : i;
            S->element_get_child (EC, d, ii, x);
            Geo c = geo_of (S, EC, x, K);
            bool touch = false;
            for (int cf = 0; cf < S_NF[c.shape] && !touch; ++cf) {
              touch = on_face (e, g, f, sface_pts (x, c, cf));
            }
            if (touch) {
              best = ii;
              break;
            }
          }
          if (best < 0)
            break;
          S->element_get_child (EC, d, best, d);
        }
        if (last)
          S->element_get_last_descendant_face (EC, e, f, y, L);
        else
          S->element_get_first_descendant_face (EC, e, f, y, L);
        VF_CHECK (eq (d, y) && geq (d, y), last ? "C04-last-face-desc" : "C04-first-face-desc",
                  "face %d: %s face descendant at level %d wrong (%s)", f, last ? "last" : "first", L, geo_str (g).c_str ());
        count ("face_descendants");
      }
    }
    /* boundary face element and extrusion */
    if (rf >= 0 && bd) {
      t8_eclass_t fec = (t8_eclass_t) S_FSHAPE[(int) EC][rf];
      int FK = S->get_maxlevel (fec);
      El b (S, fec), ex (S, EC);
      S->element_get_boundary_face (EC, e, f, b);
      if (fec != T8_ECLASS_VERTEX) {
        int fk = std::min (FK, 60);
        Geo bg = geo_of (S, fec, b, fk);
        VF_CHECK (bg.level == l, "C04-boundary-level", "boundary element has level %d", bg.level);
        /* embed the face element's corners in the tree: affine map by the tree face corners */
        const int *tv = S_FV[(int) EC][rf];
        std::vector<P3> emb;
        bool ok = bg.exact;
        for (int k = 0; k < bg.nv; ++k) {
          P3 q;
          i64 a, bb;
          if (fec == T8_ECLASS_LINE)
            a = bg.v[k][0], bb = 0;
          else if (fec == T8_ECLASS_QUAD)
            a = bg.v[k][0], bb = bg.v[k][1];
          else
            a = bg.v[k][0] - bg.v[k][1], bb = bg.v[k][1];
          for (int d = 0; d < 3; ++d) {
            i128 val = (i128) ROOTV[tv[0]][d] * ((i128) 1 << fk) + (i128) a * (ROOTV[tv[1]][d] - ROOTV[tv[0]][d])
                       + (i128) bb * ((fec == T8_ECLASS_LINE ? 0 : ROOTV[tv[2]][d] - ROOTV[tv[0]][d]));
            if (val % ((i128) 1 << fk) != 0)
              ok = false;
            q[d] = (i64) (val / ((i128) 1 << fk));
          }
          emb.push_back (q);
        }
        VF_CHECK (ok && sorted_pts (emb) == sorted_pts (fp), "C04-boundary-geometry",
                  "boundary element of face %d (root face %d) of %s is a different face: %s", f, rf, geo_str (g).c_str (),
                  geo_str (bg).c_str ());
      }
      int ef = S->element_extrude_face (EC, b, ex, rf);
      VF_CHECK (eq (ex, e) && geq (ex, e), "C04-extrude", "extruding boundary face %d (root face %d) gives another element (%s)", f, rf,
                geo_str (g).c_str ());
      VF_CHECK (ef == f, "C04-extrude-face", "extruded face %d expected %d", ef, f);
      count ("extrusions");
    }
  }
  if (has_corner_face ())
    for (int c = 0; c < g.nv; ++c) {
      std::set<int> got;
      for (size_t k = 0; k < corner_faces[c].size (); ++k)
        got.insert (S->element_get_corner_face (EC, e, c, (int) k));
      VF_CHECK (got == corner_faces[c], "C04-corner-face", "faces at corner %d disagree with face corners", c);
      count ("corner_faces");
    }
}

/* face transformation: an invertible symmetry of the face class, corner 0 of the smaller face goes to corner
 * 'orientation' of the other one. */
static void
check_transform (const Path &p)
{
  if (S_DIM[(int) EC] > 2 || EC == T8_ECLASS_VERTEX)
    return;
  El e = from_path (p), a (S, EC), b (S, EC), r (S, EC);
  int l = (int) p.size ();
  Geo g = geo_of (S, EC, e, K);
  S->set_to_root (EC, r);
  int nv = S_NV[(int) EC];
  i64 N = (i64) 1 << K;
  for (int o = 0; o < nv; ++o)
    for (int sign = 0; sign < 2; ++sign) {
      ctx ("scheme %d class %s path %s transform orientation %d sign %d", scheme_id, S_NAME[(int) EC], pstr (p).c_str (), o, sign);
      S->element_transform_face (EC, e, a, o, sign, 1);
      Geo ga = geo_of (S, EC, a, K);
      VF_CHECK (ga.level == l && ga.exact, "C04-transform-level", "level %d", ga.level);
      for (int k = 0; k < ga.nv; ++k)
        VF_CHECK (cell_contains ((int) EC, ROOTV, ga.v[k], false), "C04-transform-in-root", "outside root");
      /* the symmetry: find by definition; corner 0 -> o; then, for 2D, parity by sign */
      /* candidate corner permutations of the face cell */
      std::vector<std::vector<int>> perms;
      if (EC == T8_ECLASS_LINE)
        perms = { { 0, 1 }, { 1, 0 } };
      else if (EC == T8_ECLASS_TRIANGLE)
        perms = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 2, 0 }, { 1, 0, 2 }, { 2, 0, 1 }, { 2, 1, 0 } };
      else
        perms = { { 0, 1, 2, 3 }, { 0, 2, 1, 3 }, { 1, 3, 0, 2 }, { 1, 0, 3, 2 }, { 2, 0, 3, 1 }, { 2, 3, 0, 1 }, { 3, 1, 2, 0 }, { 3, 2, 1, 0 } };
      int found = 0;
      for (auto &pm : perms) {
        if (pm[0] != o)
          continue;
        /* affine map sending ROOTV[i] -> ROOTV[pm[i]]; apply to element corners */
        std::vector<P3> img;
        bool ok = true;
        for (int k = 0; k < g.nv; ++k) {
          i64 A, B;
          if (EC == T8_ECLASS_TRIANGLE)
            A = g.v[k][0] - g.v[k][1], B = g.v[k][1];
          else
            A = g.v[k][0], B = g.v[k][1];
          P3 q = { 0, 0, 0 };
          for (int d = 0; d < 2; ++d) {
            i128 v = (i128) ROOTV[pm[0]][d] * N + (i128) A * (ROOTV[pm[1]][d] - ROOTV[pm[0]][d]);
            if (nv > 2)
              v += (i128) B * (ROOTV[pm[2]][d] - ROOTV[pm[0]][d]);
            q[d] = (i64) (v / N);
          }
          img.push_back (q);
        }
        std::vector<P3> got (ga.v, ga.v + ga.nv);
        if (ok && sorted_pts (img) == sorted_pts (got)) {
          /* parity: determinant of the permutation map */
          bool mirror;
          if (EC == T8_ECLASS_LINE) {
            found |= 4;
            continue;
          }
          if (EC == T8_ECLASS_TRIANGLE)
            mirror = !((pm[1] - pm[0] + 3) % 3 == 1);
          else {
            P3 u = sub (ROOTV[pm[1]], ROOTV[pm[0]]), v2 = sub (ROOTV[pm[2]], ROOTV[pm[0]]);
            mirror = ((i128) u[0] * v2[1] - (i128) u[1] * v2[0]) < 0;
          }
          found |= mirror ? 2 : 1;
        }
      }
      VF_CHECK (found != 0, "C04-transform-symmetry", "element %s goes to %s: not a symmetry sending corner 0 to corner %d",
                geo_str (g).c_str (), geo_str (ga).c_str (), o);
      if (EC != T8_ECLASS_LINE)
        count (fmt ("transform_sign%d_mirror%d_%s", sign, found, S_NAME[(int) EC]).c_str ());
      if (EC != T8_ECLASS_LINE && found != 0)
        /* sign 1: both tree faces have the same topological orientation seen from their trees' outside,
         * i.e. gluing them reverses one: the map mirrors; sign 0: it does not */
        VF_CHECK ((found & (sign ? 2 : 1)) != 0, "C04-transform-parity", "sign %d but the map is %s", sign,
                  found == 2 ? "mirrored" : "not mirrored");
      S->element_transform_face (EC, a, b, o, sign, 0);
      VF_CHECK (eq (b, e) && geq (b, e), "C04-transform-inverse", "inverse transform does not return the element: %s",
                geo_str (geo_of (S, EC, b, K)).c_str ());
      S->element_copy (EC, e, b);
      S->element_transform_face (EC, b, b, o, sign, 1);
      VF_CHECK (eq (b, a), "C04-transform-inplace", "in-place transform differs");
      count ("transforms");
      seen ("transforms", comb (comb (phash (p), o), sign));
    }
}

/* ---------------- workload ---------------- */
static void
dfs (Path &p, int depth, const std::function<void (const Path &)> &f)
{
  f (p);
  if ((int) p.size () >= depth)
    return;
  El e = from_path (p);
  int n = EC == T8_ECLASS_VERTEX ? 1 : S->element_get_num_children (EC, e);
  for (int i = 0; i < n; ++i) {
    p.push_back (i);
    dfs (p, depth, f);
    p.pop_back ();
  }
}
static Path
random_path (Rng &rng, int len)
{
  Path p;
  El e (S, EC), c (S, EC);
  S->set_to_root (EC, e);
  int mode = (int) rng.below (6);
  int fixed = (int) rng.below (10);
  for (int k = 0; k < len; ++k) {
    int n = S->element_get_num_children (EC, e);
    int i;
    switch (mode) {
    case 0:
      i = 0;
      break;
    case 1:
      i = n - 1;
      break;
    case 2:
      i = fixed % n;
      break;
    case 3:
      i = rng.chance (0.85) ? (int) (fixed % n) : (int) rng.below (n);
      break;
    default:
      i = (int) rng.below (n);
    }
    p.push_back (i);
    S->element_get_child (EC, e, i, c);
    S->element_copy (EC, c, e);
  }
  return p;
}
static int
random_len (Rng &rng)
{
  int km = std::min (K, 60);
  switch (rng.below (5)) {
  case 0:
    return km;
  case 1:
    return km - 1;
  case 2:
    return rng.range (0, std::min (km, 6));
  default:
    return rng.range (0, km);
  }
}
/* an element near p: same prefix, differing late, or a relative */
static Path
relative_path (Rng &rng, const Path &p)
{
  int cut = (int) rng.below (p.size () + 1);
  if (rng.chance (0.3) && !p.empty ())
    cut = (int) p.size () - (int) rng.below (std::min<size_t> (p.size (), 3) + 1);
  Path q (p.begin (), p.begin () + cut);
  El e = from_path (q);
  int len = rng.chance (0.3) ? cut : rng.chance (0.5) ? (int) p.size () : rng.range (cut, std::min (K, 60));
  if (len < cut)
    len = cut;
  for (int k = cut; k < len; ++k) {
    int n = S->element_get_num_children (EC, e);
    int i = rng.chance (0.3) ? 0 : rng.chance (0.3) ? n - 1 : (int) rng.below (n);
    q.push_back (i);
    S->element_get_child (EC, e, i, e);
  }
  return q;
}

/* the vertex: one element per level */
static void
check_vertex (Rng &r)
{
  const int M = S->get_maxlevel (EC);
  for (int l = 0; l <= M; ++l) {
    ctx ("scheme %d class vertex level %d", scheme_id, l);
    El e (S, EC), x (S, EC), y (S, EC);
    S->set_to_root (EC, e);
    VF_CHECK (S->element_get_level (EC, e) == 0, "C01-level", "root level");
    for (int k = 0; k < l; ++k) {
      S->element_get_child (EC, e, 0, x);
      S->element_copy (EC, x, e);
    }
    VF_CHECK (S->element_get_level (EC, e) == l, "C01-level", "level %d", S->element_get_level (EC, e));
    VF_CHECK (S->element_get_shape (EC, e) == T8_ECLASS_VERTEX, "C03-shape", "shape");
    VF_CHECK (S->element_get_num_faces (EC, e) == 0 && S->element_get_max_num_faces (EC, e) == 0, "C04-num-faces", "faces of a vertex");
    VF_CHECK (S->element_get_num_corners (EC, e) == 1, "C03-shape", "corners of a vertex");
    VF_CHECK (S->element_get_num_siblings (EC, e) == 1, "C01-num-siblings", "siblings of a vertex");
    VF_CHECK ((S->element_is_refinable (EC, e) != 0) == (l < M), "C01-refinable", "refinable at level %d of %d", l, M);
    if (l < M) {
      VF_CHECK (S->element_get_num_children (EC, e) == 1, "C01-num-children", "children of a vertex");
      t8_element_t *ch[1] = { x.e };
      S->element_get_children (EC, e, 1, ch);
      VF_CHECK (S->element_get_level (EC, x) == l + 1, "C01-children", "children");
      S->element_get_parent (EC, x, y);
      VF_CHECK (eq (y, e), "C01-parent", "parent of the child");
      VF_CHECK (S->elements_are_family (EC, ch), "C01-family", "the child is a family");
      VF_CHECK (S->element_compare (EC, e, x) < 0 && S->element_compare (EC, x, e) > 0 && !eq (e, x), "C02-compare", "parent before child");
      VF_CHECK (S->element_is_ancestor (EC, e, x) && !S->element_is_ancestor (EC, x, e), "C01-ancestor", "ancestor test");
    }
    if (l > 0) {
      VF_CHECK (S->element_get_child_id (EC, e) == 0, "C01-child-id", "child id");
      const int a = r.range (1, l);
      VF_CHECK (S->element_get_ancestor_id (EC, e, a) == 0, "C01-ancestor-id", "ancestor id");
    }
    const int m = r.range (l, M);
    S->element_get_first_descendant (EC, e, x, m);
    S->element_get_last_descendant (EC, e, y, m);
    VF_CHECK (S->element_get_level (EC, x) == m && S->element_get_level (EC, y) == m && eq (x, y), "C02-descendant", "descendants of level %d", m);
    S->element_get_nca (EC, x, e, y);
    VF_CHECK (eq (y, e), "C01-nca", "common ancestor of levels %d and %d", l, m);
    S->element_get_nca (EC, e, x, y);
    VF_CHECK (eq (y, e), "C01-nca", "common ancestor of levels %d and %d", l, m);
    VF_CHECK (S->element_get_linear_id (EC, e, m) == 0, "C02-id", "id");
    VF_CHECK (S->element_count_leaves (EC, e, m) == 1 && S->count_leaves_from_root (EC, m) == 1, "C02-count-leaves", "leaves");
    S->element_set_linear_id (EC, y, l, 0);
    VF_CHECK (eq (y, e), "C02-set-id", "element of id 0");
    count ("elements");
    seen ("elements", comb (scheme_id, l + 1));
  }
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  const std::string prop = st ().prop;
  scheme_id = (int) opt_int ("scheme", 0);
  S.s = make_scheme (scheme_id);
  if (opt ("probe") == "mixed-face") {
    /* the face quads of the prisms and pyramids of the standalone scheme, as the library itself
     * allocates them (known finding of C17) */
    for (t8_eclass_t c3 : { T8_ECLASS_PRISM, T8_ECLASS_PYRAMID }) {
      El e (S, c3);
      S->set_to_root (c3, e);
      const int face = c3 == T8_ECLASS_PRISM ? 0 : 4;
      std::vector<El> q;
      for (int i = 0; i < 4; ++i) {
        q.emplace_back (S, T8_ECLASS_QUAD);
        ctx ("standalone scheme class %s: boundary face %d into an element_new quad", S_NAME[(int) c3], face);
        S->element_get_boundary_face (c3, e, face, q.back ());
        count ("mixed_faces");
      }
    }
    finish (false);
  }
  std::vector<int> classes;
  int only = (int) opt_int ("eclass", -1);
  for (int ec = 0; ec < 8; ++ec)
    if (only < 0 || only == ec)
      classes.push_back (ec);
  for (int ec : classes) {
    EC = (t8_eclass_t) ec;
    K = S->get_maxlevel (EC);
    if (EC == T8_ECLASS_VERTEX)
      K = 30;
    for (int i = 0; i < S_NV[ec]; ++i)
      for (int d = 0; d < 3; ++d)
        ROOTV[i][d] = (i64) S_REF[ec][i][d] << K;
    Rng rng (comb (st ().seed, 1000 + ec * 2 + scheme_id));
    El::align_quads = scheme_id == 1 && (EC == T8_ECLASS_PRISM || EC == T8_ECLASS_PYRAMID) ? (has_opt ("raw-quads") ? 2 : 1) : 0;
    if (EC == T8_ECLASS_VERTEX) {
      check_vertex (rng);
      continue;
    }
    int base = S_DIM[ec] == 1 ? 7 : S_DIM[ec] == 2 ? 4 : 2;
    int depth = base + (st ().tier ? 1 : 0);
    int nrand = (int) (st ().scale * (st ().tier ? 6000 : 700));
    auto one = [&] (const Path &p) {
      ctx ("scheme %d class %s path %s", scheme_id, S_NAME[ec], pstr (p).c_str ());
      if (prop == "C01")
        check_c01 (p, rng);
      else if (prop == "C02")
        check_c02 (p, rng);
      else if (prop == "C03")
        check_c03 (p, rng);
      else {
        check_c04 (p, rng);
        check_transform (p);
      }
    };
    Path p;
    dfs (p, depth, one);
    if (st ().nviol)
      break;
    for (int t = 0; t < nrand && st ().nviol < 5; ++t) {
      Path q = random_path (rng, random_len (rng));
      one (q);
      if (t < 2)
        sample (std::string (S_NAME[ec]) + (scheme_id ? " standalone " : " default ") + pstr (q));
      for (int k = 0; k < 3; ++k) {
        Path r = relative_path (rng, q);
        ctx ("scheme %d class %s pair %s %s", scheme_id, S_NAME[ec], pstr (q).c_str (), pstr (r).c_str ());
        if (prop == "C01")
          check_c01_pair (q, r);
        else if (prop == "C02")
          check_c02_pair (q, r);
      }
    }
    if (prop == "C01")
      for (int L = 1; L <= depth + 1; ++L)
        check_c01_windows (L);
    if (prop == "C02")
      for (int L = 0; L <= depth + 1; ++L)
        check_c02_level (L);
  }
  count ("c_interface_calls", S.c_calls);
  {
    /* the C functions of a second reference */
    t8_scheme_c *again = (t8_scheme_c *) S.s;
    t8_scheme_ref (again);
    t8_scheme_unref (&again);
    VF_CHECK (again != NULL && S->get_maxlevel (T8_ECLASS_QUAD) > 0, "C01-scheme-ref", "scheme released although it is still referenced");
    t8_scheme_unref (&again);
    VF_CHECK (again == NULL, "C01-scheme-ref", "pointer kept after the last reference");
  }
  return finish ();
}
