/* C28: shared-memory arrays, element arrays and packed data hold what was put into them.
 * Oracle: plain vectors on every process that undergo the same random operations. */
#include "shapes.hxx"
#include <t8_schemes/t8_default/t8_default.hxx>
#include <t8_schemes/t8_standalone/t8_standalone.hxx>
#include <t8_schemes/t8_scheme.hxx>
#include <t8_data/t8_shmem.h>
#include <t8_data/t8_containers.h>
#include <t8_data/t8_element_array_iterator.hxx>
#include <t8_data/t8_vector_handler.hxx>
#include <sc_shmem.h>
#include <cinttypes>

using namespace vf;
typedef std::vector<unsigned char> Bytes;

/* ------------------------------------------------------------------------- shared-memory arrays */
struct Shared
{
  t8_shmem_array_t a = nullptr;
  size_t size = 0, n = 0;
  Bytes m;     /* what every process must read */
  bool known;  /* contents written at least once */
};

static const int TYPES[4] = { SC_SHMEM_BASIC, SC_SHMEM_PRESCAN, SC_SHMEM_WINDOW, SC_SHMEM_WINDOW_PRESCAN };
static const char *TYPE_NAME[4] = { "basic", "prescan", "window", "window_prescan" };

static void
shared_check (const Shared &s, const char *after)
{
  count ("array_reads");
  VF_CHECK (t8_shmem_array_get_elem_count (s.a) == s.n && t8_shmem_array_get_elem_size (s.a) == s.size, "shmem-shape",
            "after %s: %zu entries of %zu bytes instead of %zu of %zu", after, t8_shmem_array_get_elem_count (s.a), t8_shmem_array_get_elem_size (s.a), s.n, s.size);
  if (!s.known)
    return;
  const unsigned char *raw = (const unsigned char *) t8_shmem_array_get_array (s.a);
  for (size_t i = 0; i < s.n; ++i) {
    const unsigned char *p = (const unsigned char *) t8_shmem_array_index (s.a, i);
    if (p != raw + i * s.size || memcmp (p, s.m.data () + i * s.size, s.size)) {
      i64 got = 0, want = 0;
      memcpy (&got, p, std::min<size_t> (8, s.size));
      memcpy (&want, s.m.data () + i * s.size, std::min<size_t> (8, s.size));
      viol ("shmem-entry", "after %s: entry %zu of %zu (%zu bytes) begins with %" PRId64 " instead of %" PRId64, after, i, s.n, s.size, got, want);
      return;
    }
  }
  if (s.size == sizeof (t8_gloidx_t) && s.n > 0) {
    const t8_gloidx_t *g = t8_shmem_array_get_gloidx_array (s.a);
    for (size_t i = 0; i < s.n; ++i) {
      t8_gloidx_t want;
      memcpy (&want, s.m.data () + i * 8, 8);
      VF_CHECK (g[i] == want && t8_shmem_array_get_gloidx (s.a, (int) i) == want, "shmem-gloidx", "after %s: entry %zu is %lld instead of %lld", after, i,
                (long long) g[i], (long long) want);
    }
  }
}

static int
cmp_gloidx (t8_shmem_array_t a, const int guess, const t8_gloidx_t value)
{
  const t8_gloidx_t g = t8_shmem_array_get_gloidx (a, guess);
  return value == g ? 0 : value < g ? -1 : 1;
}

static void
shared_new (Shared &s, Rng &r, sc_MPI_Comm comm, size_t size, size_t n)
{
  s.size = size;
  s.n = n;
  t8_shmem_array_init (&s.a, size, n, comm);
  s.m.assign (size * n, 0);
  s.known = false;
  VF_CHECK (t8_shmem_array_get_comm (s.a) == comm, "shmem-comm", "array has another communicator");
  (void) r;
}

/* write random values into (parts of) the array through the writing interface */
static void
shared_write (Shared &s, Rng &r)
{
  std::vector<size_t> where;
  Bytes v;
  const bool all = !s.known || r.chance (0.4);
  for (size_t i = 0; i < s.n; ++i)
    if (all || r.chance (0.3))
      where.push_back (i);
  for (size_t k = 0; k < where.size () * s.size; ++k)
    v.push_back ((unsigned char) r.next ());
  const int how = r.range (0, 2);
  const int may = t8_shmem_array_start_writing (s.a);
  if (may) {
    for (size_t k = 0; k < where.size (); ++k) {
      if (s.size == sizeof (t8_gloidx_t) && how == 0) {
        t8_gloidx_t x;
        memcpy (&x, v.data () + k * 8, 8);
        t8_shmem_array_set_gloidx (s.a, (int) where[k], x);
      }
      else if (s.size == sizeof (t8_gloidx_t) && how == 1)
        memcpy (t8_shmem_array_get_gloidx_array_for_writing (s.a) + where[k], v.data () + k * 8, 8);
      else
        memcpy (t8_shmem_array_index_for_writing (s.a, where[k]), v.data () + k * s.size, s.size);
    }
    count ("writers");
  }
  t8_shmem_array_end_writing (s.a);
  for (size_t k = 0; k < where.size (); ++k)
    memcpy (s.m.data () + where[k] * s.size, v.data () + k * s.size, s.size);
  if (all)
    s.known = true;
}

struct MT
{
  sc_MPI_Datatype t;
  size_t size;
};

static void
run_shmem (i64 n)
{
  const MT mts[] = { { sc_MPI_INT, sizeof (int) }, { T8_MPI_GLOIDX, sizeof (t8_gloidx_t) }, { sc_MPI_DOUBLE, sizeof (double) }, { sc_MPI_BYTE, 1 }, { sc_MPI_LONG, sizeof (long) } };
  for (i64 k = 0; k < n; ++k) {
    if (st ().only_case >= 0 && st ().only_case != k)
      continue;
    Rng g (comb (comb (st ().seed, 771), k)); /* same on all processes */
    /* a communicator */
    const int ck = g.range (0, 4);
    sc_MPI_Comm comm = st ().comm;
    u64 color = 0;
    if (ck == 1)
      MPI_Comm_dup (st ().comm, &comm);
    else if (ck == 2 || ck == 3) {
      const int ncol = g.range (1, 3);
      const u64 salt = g.next ();
      color = mix (salt + (u64) st ().rank) % ncol;
      const int key = ck == 3 ? (int) (mix (salt ^ (77 + st ().rank)) % 1000) : st ().rank;
      MPI_Comm_split (st ().comm, (int) color, key, &comm);
    }
    else if (ck == 4) {
      comm = sc_MPI_COMM_SELF;
      color = (u64) st ().rank + 10;
    }
    Rng r (comb (g.next (), color)); /* same on all processes of the communicator */
    int rank, size;
    MPI_Comm_rank (comm, &rank);
    MPI_Comm_size (comm, &size);
    const int ty = r.range (0, 3);
    int ppn = 0; /* pretend that so many processes make one node */
    if (r.chance (0.5)) {
      std::vector<int> d;
      for (int i = 1; i <= size; ++i)
        if (size % i == 0)
          d.push_back (i);
      ppn = r.pick (d);
      if (ck == 0)
        t8_shmem_finalize (comm); /* sc_init has attached the real nodes */
      sc_mpi_comm_attach_node_comms (comm, ppn);
    }
    ctx ("shmem case %lld: communicator kind %d of %d processes, backend %s, %d processes per node", (long long) k, ck, size, TYPE_NAME[ty], ppn);
    const int in = t8_shmem_init (comm);
    VF_CHECK (in == (ppn ? ppn : size), "shmem-node", "%d processes share memory instead of %d", in, ppn ? ppn : size);
    t8_shmem_set_type (comm, (sc_shmem_type_t) TYPES[ty]);
    std::vector<Shared> v;
    const int steps = r.range (3, 14);
    std::string hist;
    for (int s = 0; s < steps && !st ().nviol; ++s) {
      const int op = v.empty () ? 0 : r.range (0, 8);
      ctx ("shmem case %lld: communicator kind %d of %d processes, backend %s, %d processes per node, history%s, operation %d", (long long) k, ck, size, TYPE_NAME[ty], ppn,
           hist.c_str (), op);
      hist += fmt (" %d", op);
      count ("shmem_ops");
      switch (op) {
      case 0: { /* new */
        Shared x;
        const size_t sizes[] = { 8, 8, 8, 4, 1, 3, 16, 24, 100 };
        shared_new (x, r, comm, sizes[r.range (0, 8)], (size_t) (r.chance (0.1) ? 1 : r.chance (0.1) ? 3000 : r.range (1, 60)));
        v.push_back (x);
        shared_check (v.back (), "initialisation");
        break;
      }
      case 1:
      case 2: {
        Shared &x = v[r.below (v.size ())];
        shared_write (x, r);
        shared_check (x, "writing");
        break;
      }
      case 3: { /* copy into a second array of the same shape */
        const Shared x = v[r.below (v.size ())];
        if (!x.known)
          break;
        Shared y;
        shared_new (y, r, comm, x.size, x.n);
        t8_shmem_array_copy (y.a, x.a);
        y.m = x.m;
        y.known = true;
        shared_check (y, "copying");
        shared_check (x, "being copied");
        VF_CHECK (t8_shmem_array_is_equal (x.a, y.a) == 1, "shmem-equal", "copy is not equal to its source");
        VF_CHECK (t8_shmem_array_is_equal (x.a, x.a) == 1, "shmem-equal", "array is not equal to itself");
        /* change one byte */
        const size_t i = r.below (x.n), b = r.below (x.size);
        const unsigned char by = (unsigned char) (1 + r.below (255));
        PMPI_Barrier (comm); /* the others may still be reading */
        if (t8_shmem_array_start_writing (y.a))
          ((unsigned char *) t8_shmem_array_index_for_writing (y.a, i))[b] ^= by;
        t8_shmem_array_end_writing (y.a);
        y.m[i * x.size + b] ^= by;
        shared_check (y, "a change after copying");
        VF_CHECK (t8_shmem_array_is_equal (x.a, y.a) == 0 && t8_shmem_array_is_equal (y.a, x.a) == 0, "shmem-equal", "arrays that differ in byte %zu of entry %zu are equal", b, i);
        v.push_back (y);
        count ("copies");
        break;
      }
      case 4: { /* allgather */
        const MT mt = mts[r.range (0, 4)];
        const int c = r.range (1, 5);
        Shared y;
        shared_new (y, r, comm, mt.size * (r.chance (0.5) ? 1 : (size_t) c), 0 + (size_t) 0 + 1);
        t8_shmem_array_destroy (&y.a);
        VF_CHECK (y.a == nullptr, "shmem-destroy", "pointer not cleared");
        const bool per_entry = r.chance (0.5);
        shared_new (y, r, comm, per_entry ? mt.size : mt.size * c, per_entry ? (size_t) (c * size) : (size_t) size);
        for (auto &b : y.m)
          b = (unsigned char) r.next ();
        Bytes mine (y.m.begin () + (size_t) rank * c * mt.size, y.m.begin () + (size_t) (rank + 1) * c * mt.size);
        t8_shmem_array_allgather (mine.data (), c, mt.t, y.a, c, mt.t);
        y.known = true;
        shared_check (y, "allgather");
        v.push_back (y);
        count ("gathers");
        break;
      }
      case 5:
      case 6: { /* allgatherv */
        const MT mt = mts[r.range (0, 4)];
        std::vector<int> c (size);
        size_t tot = 0;
        const double pe = r.unit ();
        for (int &x : c)
          tot += (size_t) (x = r.chance (pe) ? 0 : r.range (1, 20));
        const size_t extra = r.chance (0.3) || tot == 0 ? (size_t) r.range (1, 3) : 0;
        Shared y;
        shared_new (y, r, comm, mt.size, tot + extra);
        shared_write (y, r); /* what lies behind must stay */
        size_t off = 0;
        for (int p = 0; p < rank; ++p)
          off += (size_t) c[p];
        for (size_t b = 0; b < tot * mt.size; ++b)
          y.m[b] = (unsigned char) r.next ();
        Bytes mine (y.m.begin () + off * mt.size, y.m.begin () + (off + (size_t) c[rank]) * mt.size);
        t8_shmem_array_allgatherv (mine.data (), c[rank], mt.t, y.a, mt.t, comm);
        y.known = true;
        shared_check (y, "allgatherv");
        v.push_back (y);
        count ("gathers");
        if (tot == 0)
          count ("empty_gathers");
        break;
      }
      case 7: { /* prefix */
        const int c = r.range (1, 4);
        Shared y;
        shared_new (y, r, comm, sizeof (t8_gloidx_t), (size_t) (c * (size + 1)));
        std::vector<i64> all ((size_t) (c * size));
        const int kind = r.range (0, 2);
        for (auto &x : all)
          x = kind == 0 ? (i64) r.below (100) : kind == 1 ? (i64) (r.next () >> 12) - (i64) (1LL << 51) : (i64) r.below (2) * (i64) (1LL << 40);
        std::vector<i64> pre ((size_t) (c * (size + 1)), 0);
        for (int p = 0; p < size; ++p)
          for (int j = 0; j < c; ++j)
            pre[(size_t) ((p + 1) * c + j)] = pre[(size_t) (p * c + j)] + all[(size_t) (p * c + j)];
        memcpy (y.m.data (), pre.data (), pre.size () * 8);
        t8_shmem_array_prefix (all.data () + (size_t) rank * c, y.a, c, T8_MPI_GLOIDX, sc_MPI_SUM, comm);
        y.known = true;
        shared_check (y, "prefix");
        v.push_back (y);
        count ("prefixes");
        break;
      }
      default: { /* sorted array and search */
        Shared y;
        const int m = r.range (1, 40);
        shared_new (y, r, comm, sizeof (t8_gloidx_t), (size_t) m);
        std::vector<t8_gloidx_t> e;
        t8_gloidx_t x = (t8_gloidx_t) r.below (100) - 50;
        for (int i = 0; i < m; ++i)
          e.push_back (x += r.range (1, 4));
        if (t8_shmem_array_start_writing (y.a))
          for (int i = 0; i < m; ++i)
            t8_shmem_array_set_gloidx (y.a, i, e[i]);
        t8_shmem_array_end_writing (y.a);
        memcpy (y.m.data (), e.data (), (size_t) m * 8);
        y.known = true;
        shared_check (y, "writing");
        for (t8_gloidx_t q = e[0] - 2; q <= e.back () + 2; ++q) {
          const int got = t8_shmem_array_binary_search (y.a, q, m, cmp_gloidx);
          auto it = std::lower_bound (e.begin (), e.end (), q);
          const int want = it != e.end () && *it == q ? (int) (it - e.begin ()) : -1;
          VF_CHECK (got == want, "shmem-search", "search for %lld among %d entries %lld..%lld gives %d instead of %d", (long long) q, m, (long long) e[0],
                    (long long) e.back (), got, want);
          count ("searches");
        }
        v.push_back (y);
      }
      }
      /* nothing else changes */
      for (const Shared &x : v)
        shared_check (x, "an operation on another array");
      if (v.size () > 3 || r.chance (0.1)) {
        const size_t i = r.below (v.size ());
        t8_shmem_array_destroy (&v[i].a);
        VF_CHECK (v[i].a == nullptr, "shmem-destroy", "pointer not cleared");
        v.erase (v.begin () + (long) i);
      }
      /* agree in the communicator, so that all go on or none */
      i64 mv = st ().nviol + st ().foreign, gv = 0;
      PMPI_Allreduce (&mv, &gv, 1, MPI_INT64_T, MPI_SUM, comm);
      if (gv > 0)
        break;
    }
    seen ("shmem", comb (hash_str (hist), (u64) (ck * 100 + ty * 10 + ppn)));
    count ("shmem_cases");
    if (k < 2)
      sample (st ().ctx);
    if (any_violation ())
      return;
    for (Shared &x : v)
      t8_shmem_array_destroy (&x.a);
    t8_shmem_finalize (comm);
    if (r.chance (0.2))
      t8_shmem_finalize (comm); /* documented to be safe */
    if (ck >= 1 && ck <= 3)
      MPI_Comm_free (&comm);
  }
  t8_shmem_init (st ().comm); /* as sc_init did; sc_finalize relies on it */
}

/* --------------------------------------------------------------------------------- element arrays */
/* a random element: the digits of the descent from the root */
static El
random_element (const t8_scheme *s, t8_eclass_t ec, Rng &r, int maxl)
{
  El e (s, ec);
  s->set_to_root (ec, e);
  const int l = r.chance (0.1) ? maxl : r.range (0, std::min (maxl, 6));
  for (int i = 0; i < l; ++i) {
    El c (s, ec);
    s->element_get_child (ec, e, r.range (0, s->element_get_num_children (ec, e) - 1), c);
    e = c;
  }
  return e;
}

/* random leaves in the order of the curve: an initial piece of an adaptive refinement, with gaps */
static void
random_leaves (const t8_scheme *s, t8_eclass_t ec, Rng &r, const El &e, int depth, double gap, std::vector<El> &out)
{
  if (out.size () > 300)
    return;
  if (depth == 0 || r.chance (0.35)) {
    if (!r.chance (gap))
      out.push_back (e);
    return;
  }
  const int n = s->element_get_num_children (ec, e);
  for (int i = 0; i < n; ++i) {
    El c (s, ec);
    s->element_get_child (ec, e, i, c);
    random_leaves (s, ec, r, c, depth - 1, gap, out);
  }
}

static void
array_check (const t8_element_array_t *a, const std::vector<El> &m, const t8_scheme *s, t8_eclass_t ec, const char *after)
{
  count ("container_reads");
  const size_t n = t8_element_array_get_count (a);
  VF_CHECK (n == m.size (), "container-count", "after %s: %zu elements instead of %zu", after, n, m.size ());
  VF_CHECK (t8_element_array_get_scheme (a) == s && t8_element_array_get_tree_class (a) == ec, "container-scheme", "after %s: other scheme or class", after);
  VF_CHECK (t8_element_array_get_size (a) == s->get_element_size (ec), "container-size", "after %s: element size %zu instead of %zu", after, t8_element_array_get_size (a),
            s->get_element_size (ec));
  const char *data = (const char *) t8_element_array_get_data (a);
  VF_CHECK ((data == nullptr) == (n == 0), "container-data", "after %s: data pointer %p with %zu elements", after, (const void *) data, n);
  if (n != m.size ())
    return;
  const size_t es = s->get_element_size (ec);
  t8_element_array_iterator it = t8_element_array_begin (a);
  const t8_element_array_iterator end = t8_element_array_end (a);
  for (size_t i = 0; i < n; ++i, ++it) {
    const t8_element_t *e = t8_element_array_index_locidx (a, (t8_locidx_t) i);
    VF_CHECK ((const char *) e == data + i * es && t8_element_array_index_int (a, (int) i) == e, "container-index", "after %s: element %zu of %zu lies elsewhere", after, i, n);
    VF_CHECK (it != end && it < end && *it == e && (size_t) it.get_current_index () == i, "container-iterator", "after %s: iterator at %zu of %zu is wrong", after, i, n);
    if (!s->element_is_equal (ec, e, m[i])) {
      viol ("container-element", "after %s: element %zu of %zu differs (levels %d and %d)", after, i, n, s->element_get_level (ec, e), s->element_get_level (ec, m[i]));
      return;
    }
    count ("container_elements");
  }
  VF_CHECK (it == end && !(it != end) && end - t8_element_array_begin (a) == (std::ptrdiff_t) n, "container-iterator", "after %s: end not reached after %zu elements", after, n);
}

static void
put_elements (t8_element_array_t *a, size_t from, size_t cnt, std::vector<El> &m, const t8_scheme *s, t8_eclass_t ec, Rng &r, int maxl)
{
  for (size_t i = from; i < from + cnt; ++i) {
    El e = random_element (s, ec, r, maxl);
    t8_element_t *p = r.chance (0.5) ? t8_element_array_index_locidx_mutable (a, (t8_locidx_t) i) : t8_element_array_index_int_mutable (a, (int) i);
    s->element_copy (ec, e, p);
    m[i] = e;
  }
}

static void
run_containers (i64 n)
{
  for (i64 k = 0; k < n; ++k) {
    if (st ().only_case >= 0 && st ().only_case != k)
      continue;
    Rng r (comb (comb (st ().seed, 9000 + st ().rank), k));
    const int sid = r.range (0, 1);
    const t8_scheme *s = make_scheme (sid);
    const t8_eclass_t ec = (t8_eclass_t) r.range (0, sid == 0 ? 7 : 7);
    const int maxl = s->get_maxlevel (ec);
    const int held0 = held_blocks ();
    {
      std::vector<t8_element_array_t *> a;
      std::vector<std::vector<El>> m;
      std::string hist;
      const int steps = r.range (3, 25);
      for (int t = 0; t < steps && !st ().nviol; ++t) {
        const int op = a.empty () ? r.range (0, 2) : r.range (0, 11);
        ctx ("containers case %lld: scheme %d class %s history%s, operation %d", (long long) k, sid, S_NAME[ec], hist.c_str (), op);
        hist += fmt (" %d", op);
        count ("container_ops");
        const size_t i = a.empty () ? 0 : r.below (a.size ());
        switch (op) {
        case 0: {
          t8_element_array_t *x;
          if (r.chance (0.5))
            x = t8_element_array_new (s, ec);
          else {
            x = T8_ALLOC (t8_element_array_t, 1);
            t8_element_array_init (x, s, ec);
          }
          a.push_back (x);
          m.push_back ({});
          break;
        }
        case 1: {
          const size_t c = (size_t) r.range (0, 30);
          t8_element_array_t *x;
          if (r.chance (0.5))
            x = t8_element_array_new_count (s, ec, c);
          else {
            x = T8_ALLOC (t8_element_array_t, 1);
            t8_element_array_init_size (x, s, ec, c);
          }
          VF_CHECK (t8_element_array_get_count (x) == c, "container-count", "new array of %zu elements has %zu", c, t8_element_array_get_count (x));
          a.push_back (x);
          m.push_back (std::vector<El> (c));
          put_elements (x, 0, c, m.back (), s, ec, r, maxl);
          break;
        }
        case 2: { /* from plain data */
          const size_t c = (size_t) r.range (1, 20), es = s->get_element_size (ec);
          std::vector<El> e (c);
          char *raw = (char *) T8_ALLOC (char, c *es);
          s->element_init (ec, (int) c, (t8_element_t *) raw);
          for (size_t j = 0; j < c; ++j) {
            e[j] = random_element (s, ec, r, maxl);
            s->element_copy (ec, e[j], (t8_element_t *) (raw + j * es));
          }
          t8_element_array_t view;
          t8_element_array_init_data (&view, (t8_element_t *) raw, s, ec, c);
          array_check (&view, e, s, ec, "init_data");
          t8_element_array_t *x = T8_ALLOC (t8_element_array_t, 1);
          t8_element_array_init_copy (x, s, ec, (t8_element_t *) raw, c);
          /* the copy is independent of the data */
          El other = random_element (s, ec, r, maxl);
          const size_t w = r.below (c);
          s->element_copy (ec, other, (t8_element_t *) (raw + w * es));
          std::vector<El> f = e;
          f[w] = other;
          array_check (&view, f, s, ec, "a change of the data behind the view");
          s->element_deinit (ec, (int) c, (t8_element_t *) raw);
          T8_FREE (raw);
          a.push_back (x);
          m.push_back (e);
          break;
        }
        case 3: { /* resize */
          const size_t c = r.chance (0.1) ? 0 : (size_t) r.range (0, 60), old = m[i].size ();
          t8_element_array_resize (a[i], c);
          VF_CHECK (t8_element_array_get_count (a[i]) == c, "container-count", "resized from %zu to %zu, has %zu", old, c, t8_element_array_get_count (a[i]));
          m[i].resize (c);
          if (c > old)
            put_elements (a[i], old, c - old, m[i], s, ec, r, maxl);
          break;
        }
        case 4: { /* push */
          El e = random_element (s, ec, r, maxl);
          t8_element_t *p = t8_element_array_push (a[i]);
          VF_CHECK (p == t8_element_array_index_locidx (a[i], (t8_locidx_t) m[i].size ()), "container-push", "new element is not the last one");
          s->element_copy (ec, e, p);
          m[i].push_back (e);
          break;
        }
        case 5: { /* push several */
          const size_t c = (size_t) r.range (1, 20), old = m[i].size ();
          t8_element_t *p = t8_element_array_push_count (a[i], c);
          VF_CHECK (p == t8_element_array_index_locidx (a[i], (t8_locidx_t) old) && t8_element_array_get_count (a[i]) == old + c, "container-push", "%zu new elements behind %zu: wrong place", c, old);
          m[i].resize (old + c);
          put_elements (a[i], old, c, m[i], s, ec, r, maxl);
          break;
        }
        case 6: { /* copy over another one */
          const size_t j = r.below (a.size ());
          if (i == j)
            break;
          t8_element_array_copy (a[i], a[j]);
          m[i] = m[j];
          break;
        }
        case 7: { /* view */
          const size_t off = r.below (m[i].size () + 1), len = r.below (m[i].size () - off + 1);
          if (len == 0)
            break;
          t8_element_array_t view;
          t8_element_array_init_view (&view, a[i], off, len);
          std::vector<El> e (m[i].begin () + (long) off, m[i].begin () + (long) (off + len));
          array_check (&view, e, s, ec, "taking a view");
          const size_t w = r.below (len);
          El x = random_element (s, ec, r, maxl);
          s->element_copy (ec, x, t8_element_array_index_locidx_mutable (&view, (t8_locidx_t) w));
          m[i][off + w] = x;
          count ("views");
          break;
        }
        case 8: /* truncate */
          t8_element_array_truncate (a[i]);
          m[i].clear ();
          break;
        case 9: /* reset */
          t8_element_array_reset (a[i]);
          m[i].clear ();
          break;
        case 10: { /* iterator arithmetic */
          const std::ptrdiff_t c = (std::ptrdiff_t) m[i].size ();
          std::ptrdiff_t pos = (std::ptrdiff_t) r.below ((u64) c + 1);
          t8_element_array_iterator it (a[i], (t8_locidx_t) pos);
          const t8_element_array_iterator b = t8_element_array_begin (a[i]), e = t8_element_array_end (a[i]);
          for (int q = 0; q < 12; ++q) {
            const std::ptrdiff_t to = (std::ptrdiff_t) r.below ((u64) c + 1), d = to - pos;
            switch (r.range (0, 5)) {
            case 0:
              it += d;
              pos = to;
              break;
            case 1:
              it -= -d;
              pos = to;
              break;
            case 2:
              it = r.chance (0.5) ? it + d : d + it;
              pos = to;
              break;
            case 3:
              it = it - (-d);
              pos = to;
              break;
            case 4:
              if (pos < c) {
                auto o = r.chance (0.5) ? it++ : (++it, b + pos);
                VF_CHECK (o - b == pos, "container-iterator", "increment at %td", pos);
                ++pos;
              }
              break;
            default:
              if (pos > 0) {
                auto o = r.chance (0.5) ? it-- : (--it, b + pos);
                VF_CHECK (o - b == pos, "container-iterator", "decrement at %td", pos);
                --pos;
              }
            }
            VF_CHECK (it.get_current_index () == pos && it - b == pos && e - it == c - pos && (it == e) == (pos == c) && (it == b) == (pos == 0) && (it < e) == (pos < c)
                        && (it > b) == (pos > 0) && it <= e && it >= b && (it >= e) == (pos == c) && (it <= b) == (pos == 0),
                      "container-iterator", "iterator at %td of %td: wrong position or comparison", pos, c);
            if (pos < c) {
              const int lv = s->element_get_level (ec, m[i][(size_t) pos]);
              VF_CHECK (s->element_is_equal (ec, *it, m[i][(size_t) pos]) && s->element_is_equal (ec, b[pos], m[i][(size_t) pos])
                          && it.get_linear_id_at_level (lv) == s->element_get_linear_id (ec, m[i][(size_t) pos], lv),
                        "container-iterator", "iterator at %td of %td: wrong element", pos, c);
            }
            count ("iterator_steps");
          }
          break;
        }
        default: { /* a sorted array and look-ups */
          El root (s, ec);
          s->set_to_root (ec, root);
          std::vector<El> l;
          random_leaves (s, ec, r, root, std::min (maxl, r.range (0, 5)), r.chance (0.5) ? 0.0 : r.unit (), l);
          t8_element_array_t *x = t8_element_array_new_count (s, ec, l.size ());
          for (size_t j = 0; j < l.size (); ++j)
            s->element_copy (ec, l[j], t8_element_array_index_locidx_mutable (x, (t8_locidx_t) j));
          for (int q = 0; q < 40; ++q) {
            El e;
            if (!l.empty () && r.chance (0.7)) {
              e = l[r.below (l.size ())];
              if (r.chance (0.3) && s->element_get_level (ec, e) > 0) {
                El p (s, ec);
                s->element_get_parent (ec, e, p);
                e = p;
              }
              else if (r.chance (0.3) && s->element_get_level (ec, e) < maxl) {
                El p (s, ec);
                s->element_get_child (ec, e, r.range (0, s->element_get_num_children (ec, e) - 1), p);
                e = p;
              }
            }
            else
              e = random_element (s, ec, r, maxl);
            t8_locidx_t want = -1;
            for (size_t j = 0; j < l.size (); ++j)
              if (s->element_is_equal (ec, l[j], e))
                want = (t8_locidx_t) j;
            const t8_locidx_t got = t8_element_array_find (x, e);
            VF_CHECK (got == want, "container-find", "an element of level %d is found at %d instead of %d of %zu", s->element_get_level (ec, e), (int) got, (int) want, l.size ());
            count (want < 0 ? "finds_without" : "finds");
          }
          a.push_back (x);
          m.push_back (l);
        }
        }
        for (size_t j = 0; j < a.size (); ++j)
          array_check (a[j], m[j], s, ec, "the operation");
        if (!a.empty () && (a.size () > 4 || r.chance (0.05))) {
          const size_t j = r.below (a.size ());
          t8_element_array_reset (a[j]);
          T8_FREE (a[j]);
          a.erase (a.begin () + (long) j);
          m.erase (m.begin () + (long) j);
        }
      }
      seen ("containers", comb (comb (hash_str (hist), (u64) (sid * 10 + ec)), r.s));
      count ("container_cases");
      if (k < 1)
        sample (st ().ctx);
      if (st ().nviol || st ().foreign)
        return;
      for (auto *x : a) {
        t8_element_array_reset (x);
        T8_FREE (x);
      }
    }
    VF_CHECK (held_blocks () == held0, "leak-containers", "%d blocks are still held after all arrays were reset", held_blocks () - held0);
    ((t8_scheme_c *) s)->unref ();
    if (st ().nviol || st ().foreign)
      return;
  }
}

/* ---------------------------------------------------------------------------------------- packing */
struct Rec
{
  int id;
  double x;
  std::vector<i64> tail;
  bool
  operator== (const Rec &o) const
  {
    return id == o.id && x == o.x && tail == o.tail;
  }
};
template <>
struct t8_data_handler<Rec>
{
  int
  size (const Rec &d, sc_MPI_Comm comm)
  {
    int a, b, c;
    MPI_Pack_size (2, MPI_INT, comm, &a);
    MPI_Pack_size (1, MPI_DOUBLE, comm, &b);
    MPI_Pack_size ((int) d.tail.size (), MPI_INT64_T, comm, &c);
    return a + b + c;
  }
  void
  pack (const Rec &d, int &pos, void *buf, const int n, sc_MPI_Comm comm)
  {
    int h[2] = { d.id, (int) d.tail.size () };
    MPI_Pack (h, 2, MPI_INT, buf, n, &pos, comm);
    MPI_Pack (&d.x, 1, MPI_DOUBLE, buf, n, &pos, comm);
    MPI_Pack (d.tail.data (), h[1], MPI_INT64_T, buf, n, &pos, comm);
  }
  void
  unpack (const void *buf, const int n, int &pos, Rec &d, sc_MPI_Comm comm)
  {
    int h[2];
    MPI_Unpack ((void *) buf, n, &pos, h, 2, MPI_INT, comm);
    MPI_Unpack ((void *) buf, n, &pos, &d.x, 1, MPI_DOUBLE, comm);
    d.id = h[0];
    d.tail.resize ((size_t) h[1]);
    MPI_Unpack ((void *) buf, n, &pos, d.tail.data (), h[1], MPI_INT64_T, comm);
  }
  t8_data_handler_type
  type ()
  {
    return t8_data_handler_type (4711);
  }
};
template <>
struct t8_data_handler<double>
{
  int
  size (const double &, sc_MPI_Comm comm)
  {
    int b;
    MPI_Pack_size (1, MPI_DOUBLE, comm, &b);
    return b;
  }
  void
  pack (const double &d, int &pos, void *buf, const int n, sc_MPI_Comm comm)
  {
    MPI_Pack (&d, 1, MPI_DOUBLE, buf, n, &pos, comm);
  }
  void
  unpack (const void *buf, const int n, int &pos, double &d, sc_MPI_Comm comm)
  {
    MPI_Unpack ((void *) buf, n, &pos, &d, 1, MPI_DOUBLE, comm);
  }
  t8_data_handler_type
  type ()
  {
    return t8_data_handler_type (12);
  }
};

static std::vector<Rec>
random_recs (Rng &r)
{
  std::vector<Rec> v ((size_t) (r.chance (0.15) ? 0 : r.chance (0.05) ? 2000 : r.range (1, 30)));
  for (auto &x : v) {
    x.id = (int) r.next ();
    x.x = r.unit ();
    x.tail.resize ((size_t) r.range (0, 4));
    for (auto &t : x.tail)
      t = (i64) r.next ();
  }
  return v;
}
static std::vector<double>
random_doubles (Rng &r)
{
  std::vector<double> v ((size_t) (r.chance (0.15) ? 0 : r.range (1, 100)));
  for (auto &x : v)
    x = r.uniform (-1e9, 1e9);
  return v;
}

/* the vectors every process sends are known to all: generated from a common seed */
template <class T, class F>
static void
handler_case (i64 k, Rng &g, F &&gen, int want_type, const char *what)
{
  const int P = st ().size, me = st ().rank;
  std::vector<std::vector<T>> all;
  for (int p = 0; p < P; ++p) {
    Rng r (comb (g.next (), 5));
    all.push_back (gen (r));
  }
  ctx ("packing case %lld: handler of %s, %d processes", (long long) k, what, P);
  t8_vector_handler<T> mine (all[(size_t) me]);
  VF_CHECK (mine.type ().get () == want_type, "handler-type", "type %d instead of %d", mine.type ().get (), want_type);
  VF_CHECK (*mine.get_data () == all[(size_t) me], "handler-data", "handler does not hold the data it was given");
  /* locally: two vectors behind each other in a buffer of exactly the announced size */
  {
    t8_vector_handler<T> other (all[(size_t) ((me + 1) % P)]), back, back2 (all[(size_t) me]);
    const int n = mine.buffer_size (st ().comm) + other.buffer_size (st ().comm);
    char *buf = (char *) malloc ((size_t) n);
    int pos = 0, cnt = -1, q = 0;
    mine.pack_vector_prefix (buf, n, pos, st ().comm);
    VF_CHECK (pos <= mine.buffer_size (st ().comm), "handler-announced", "%d bytes packed, %d announced", pos, mine.buffer_size (st ().comm));
    other.pack_vector_prefix (buf, n, pos, st ().comm);
    VF_CHECK (pos <= n, "handler-announced", "%d bytes packed, %d announced", pos, n);
    back.unpack_vector_prefix (buf, n, q, cnt, st ().comm);
    VF_CHECK (cnt == (int) all[(size_t) me].size () && *back.get_data () == all[(size_t) me], "handler-roundtrip", "first vector of %zu items: %d unpacked or different", all[(size_t) me].size (), cnt);
    back2.unpack_vector_prefix (buf, n, q, cnt, st ().comm);
    VF_CHECK (cnt == (int) all[(size_t) ((me + 1) % P)].size () && *back2.get_data () == all[(size_t) ((me + 1) % P)], "handler-roundtrip",
              "second vector of %zu items: %d unpacked or different", all[(size_t) ((me + 1) % P)].size (), cnt);
    VF_CHECK (q == pos, "handler-roundtrip", "%d bytes packed, %d unpacked", pos, q);
    VF_CHECK (*mine.get_data () == all[(size_t) me], "handler-data", "packing changed the data");
    free (buf);
    count ("handler_packs", 2);
  }
  /* between processes: random permutation, everyone sends one vector and receives one */
  std::vector<int> to ((size_t) P), from ((size_t) P);
  for (int p = 0; p < P; ++p)
    to[(size_t) p] = p;
  for (int p = P - 1; p > 0; --p)
    std::swap (to[(size_t) p], to[g.below ((u64) p + 1)]);
  for (int p = 0; p < P; ++p)
    from[(size_t) to[(size_t) p]] = p;
  const int tag = g.range (0, 1000);
  const int dst = to[(size_t) me], src = from[(size_t) me];
  int cnt = -1;
  MPI_Status status;
  if (g.chance (0.5)) {
    mine.sendrecv (dst, src, tag, st ().comm, &status, cnt);
    VF_CHECK (cnt == (int) all[(size_t) src].size () && *mine.get_data () == all[(size_t) src], "handler-sendrecv", "%d items received from %d, %zu sent, or they differ", cnt, src,
              all[(size_t) src].size ());
    count ("handler_messages");
  }
  else {
    /* cycles: the smallest process of each sends first, so that nothing depends on buffering */
    t8_vector_handler<T> in, in2 (all[(size_t) me]);
    t8_vector_handler<T> &rc = g.chance (0.5) ? in : in2;
    if (dst != me) {
      int low = me;
      for (int p = dst; p != me; p = to[(size_t) p])
        low = std::min (low, p);
      const bool any = g.chance (0.3) && false;
      if (me == low) {
        mine.send (dst, tag, st ().comm);
        rc.recv (any ? MPI_ANY_SOURCE : src, tag, st ().comm, &status, cnt);
      }
      else {
        rc.recv (src, tag, st ().comm, &status, cnt);
        mine.send (dst, tag, st ().comm);
      }
      VF_CHECK (status.MPI_SOURCE == src && status.MPI_TAG == tag, "handler-status", "status names source %d tag %d instead of %d, %d", status.MPI_SOURCE, status.MPI_TAG, src, tag);
      VF_CHECK (cnt == (int) all[(size_t) src].size () && *rc.get_data () == all[(size_t) src], "handler-recv", "%d items received from %d, %zu sent, or they differ", cnt, src,
                all[(size_t) src].size ());
      count ("handler_messages");
    }
  }
}

static void
run_packing (i64 n)
{
  const int P = st ().size, me = st ().rank;
  for (i64 k = 0; k < n; ++k) {
    Rng g (comb (comb (st ().seed, 31), k));
    if (st ().only_case >= 0 && st ().only_case != k)
      continue;
    if (k % 3 == 1)
      handler_case<Rec> (k, g, random_recs, 4711, "records");
    else if (k % 3 == 2)
      handler_case<double> (k, g, random_doubles, 12, "numbers");
    else { /* elements */
      const int sid = g.range (0, 1);
      const t8_scheme *s = make_scheme (sid);
      const t8_eclass_t ec = (t8_eclass_t) g.range (0, 7);
      const int maxl = s->get_maxlevel (ec);
      const u64 base = g.next ();
      auto elements_of = [&] (int p) {
        Rng r (comb (base, (u64) p));
        std::vector<El> v;
        const int c = r.chance (0.1) ? 0 : r.range (1, 40);
        for (int i = 0; i < c; ++i)
          v.push_back (random_element (s, ec, r, maxl));
        return v;
      };
      {
        std::vector<El> v = elements_of (me);
        ctx ("packing case %lld: %zu elements of scheme %d class %s", (long long) k, v.size (), sid, S_NAME[ec]);
        Rng r (comb (base, 1000 + (u64) me));
        /* pack in batches */
        std::vector<unsigned> batch;
        for (size_t i = 0; i < v.size ();) {
          const unsigned b = (unsigned) std::min<size_t> (v.size () - i, 1 + r.below (v.size ()));
          batch.push_back (b);
          i += b;
        }
        int total = 0;
        for (unsigned b : batch) {
          int q = -1;
          s->element_MPI_Pack_size (ec, b, st ().comm, &q);
          VF_CHECK (q > 0, "pack-size", "size %d for %u elements", q, b);
          total += q;
        }
        char *buf = (char *) malloc ((size_t) total + 1);
        buf = (char *) realloc (buf, (size_t) std::max (total, 1));
        std::vector<t8_element_t *> ptr;
        for (El &e : v)
          ptr.push_back (e.e);
        int pos = 0;
        size_t i = 0;
        for (unsigned b : batch) {
          const int before = pos;
          s->element_MPI_Pack (ec, ptr.data () + i, b, buf, total, &pos, st ().comm);
          int q = 0;
          s->element_MPI_Pack_size (ec, b, st ().comm, &q);
          VF_CHECK (pos - before <= q, "pack-announced", "%u elements took %d bytes, %d announced", b, pos - before, q);
          i += b;
        }
        count ("packed_elements", v.size ());
        auto unpack_check = [&] (char *bf, int len, const std::vector<El> &want, const char *where, Rng &rr) {
          int q = 0;
          size_t j = 0;
          while (j < want.size ()) {
            const unsigned b = (unsigned) std::min<size_t> (want.size () - j, 1 + rr.below (want.size ()));
            std::vector<El> out;
            std::vector<t8_element_t *> op;
            for (unsigned x = 0; x < b; ++x)
              out.push_back (random_element (s, ec, rr, maxl)); /* something else before */
            for (El &e : out)
              op.push_back (e.e);
            s->element_MPI_Unpack (ec, bf, len, &q, op.data (), b, st ().comm);
            for (unsigned x = 0; x < b; ++x)
              if (!s->element_is_equal (ec, out[x], want[j + x])) {
                viol ("pack-element", "%s: element %zu of %zu of class %s differs (level %d and %d)", where, j + x, want.size (), S_NAME[ec], s->element_get_level (ec, out[x]),
                      s->element_get_level (ec, want[j + x]));
                return;
              }
            j += b;
          }
          VF_CHECK (q <= len, "pack-position", "%s: %d bytes read of %d", where, q, len);
          count ("unpacked_elements", want.size ());
        };
        unpack_check (buf, total, v, "locally", r);
        /* around the ring */
        const int step = P > 1 ? 1 + (int) (mix (base) % (u64) (P - 1)) : 0;
        const int dst = (me + step) % P, src = (me - step + P) % P;
        int rn = 0;
        MPI_Sendrecv (&pos, 1, MPI_INT, dst, 1, &rn, 1, MPI_INT, src, 1, st ().comm, MPI_STATUS_IGNORE);
        char *rb = (char *) malloc ((size_t) std::max (rn, 1));
        MPI_Sendrecv (buf, pos, MPI_PACKED, dst, 2, rb, rn, MPI_PACKED, src, 2, st ().comm, MPI_STATUS_IGNORE);
        unpack_check (rb, rn, elements_of (src), "from another process", r);
        free (rb);
        free (buf);
        seen ("packings", comb (base, (u64) (sid * 10 + ec)));
      }
      ((t8_scheme_c *) s)->unref ();
    }
    count ("packing_cases");
    if (any_violation ())
      return;
  }
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  const i64 n = opt_int ("n", 100);
  const std::string part = opt ("part", "all");
  if (part == "all" || part == "shmem")
    run_shmem (n);
  if (!any_violation () && (part == "all" || part == "containers"))
    run_containers (n);
  if (!any_violation () && (part == "all" || part == "packing"))
    run_packing (3 * n);
  return finish ();
}
