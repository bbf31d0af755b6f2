/* C19: what a committed coarse mesh reports equals what was specified, through commit (replicated,
 *      partitioned), derivation, broadcast; equality test discriminates.
 * C20: partition tables, repartition chains. */
#include "cmodel.hxx"
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.h>
#include <t8_schemes/t8_default/t8_default.hxx>
#include <t8_schemes/t8_standalone/t8_standalone.hxx>
#include <t8_schemes/t8_scheme.hxx>
#include <t8_data/t8_shmem.h>
#include <t8_cmesh/t8_cmesh.hxx>

using namespace vf;
static std::vector<int> pkgs;

static bool
want_all (int)
{
  return true;
}

static t8_cmesh_t
build_replicated (const CModel &m, Rng &order, AttrKeep &keep, bool overwrite)
{
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  if (order.chance (0.5))
    t8_cmesh_set_dimension (c, m.dim);
  cm_specify (c, m, order, keep, want_all, want_all, overwrite);
  t8_cmesh_commit (c, st ().comm);
  return c;
}

/* local change that alters the information carried by the mesh; "" if not possible */
static std::string
mutate (CModel &m, Rng &r, int kind)
{
  const int n = m.n ();
  int t = (int) r.below (n);
  switch (kind) {
  case 0: /* other class with the faces free */
    for (int k = 0; k < n; ++k, t = (t + 1) % n) {
      bool fre = true;
      for (int f = 0; f < CM_NF[m.cls[t]]; ++f)
        fre = fre && m.conn[t][f].tree < 0;
      if (!fre || m.dim == 1)
        continue;
      int nc;
      do
        nc = m.dim == 2 ? r.range (2, 3) : r.range (4, 7);
      while (nc == m.cls[t]);
      m.cls[t] = nc;
      return fmt ("class of tree %d", t);
    }
    return "";
  case 1: /* orientation */
    for (int k = 0; k < n; ++k, t = (t + 1) % n)
      for (int f = 0; f < CM_NF[m.cls[t]]; ++f) {
        int nv = cm_face_nv (m.cls[t], f);
        if (m.conn[t][f].tree >= 0 && nv > 1) {
          Conn q = m.conn[t][f];
          cm_join (m, t, f, q.tree, q.face, (q.orient + 1 + (int) r.below (nv - 1)) % nv);
          return fmt ("orientation at tree %d face %d", t, f);
        }
      }
    return "";
  case 2: /* removed join */
    for (int k = 0; k < n; ++k, t = (t + 1) % n)
      for (int f = 0; f < CM_NF[m.cls[t]]; ++f)
        if (m.conn[t][f].tree >= 0) {
          Conn q = m.conn[t][f];
          m.conn[t][f] = Conn ();
          m.conn[q.tree][q.face] = Conn ();
          return fmt ("join at tree %d face %d", t, f);
        }
    return "";
  case 3: /* one attribute byte */
    for (int k = 0; k < n; ++k, t = (t + 1) % n)
      if (!m.attr[t].empty ()) {
        auto it = m.attr[t].begin ();
        std::advance (it, r.below (m.attr[t].size ()));
        size_t b = r.chance (0.3) ? it->second.size () - 1 : r.below (it->second.size ());
        it->second[b] ^= (char) (1 << r.below (8));
        return fmt ("byte %zu of attribute (%d,%d) of tree %d", b, std::get<0> (it->first), std::get<1> (it->first), t);
      }
    return "";
  case 4: /* attribute added */
    m.attr[t][AKey { pkgs[0], 999999 }] = "new";
    return fmt ("new attribute at tree %d", t);
  case 5: /* attribute removed */
    for (int k = 0; k < n; ++k, t = (t + 1) % n)
      if (!m.attr[t].empty ()) {
        m.attr[t].erase (m.attr[t].begin ());
        return fmt ("attribute of tree %d removed", t);
      }
    return "";
  case 6: /* key renamed, order of the attributes kept */
    for (int k = 0; k < n; ++k, t = (t + 1) % n)
      if (!m.attr[t].empty () && std::get<1> (m.attr[t].rbegin ()->first) < 0x7ffffff0) {
        auto it = std::prev (m.attr[t].end ());
        AKey nk { std::get<0> (it->first), std::get<1> (it->first) + 1 };
        std::string d = it->second;
        m.attr[t].erase (it);
        m.attr[t][nk] = d;
        return fmt ("attribute key of tree %d", t);
      }
    return "";
  case 7: /* boundary between two attributes moved */
    for (int k = 0; k < n; ++k, t = (t + 1) % n)
      for (auto it = m.attr[t].begin (); it != m.attr[t].end (); ++it) {
        auto nx = std::next (it);
        if (nx == m.attr[t].end () || nx->second.size () < 2)
          continue;
        it->second += nx->second[0];
        nx->second.erase (0, 1);
        return fmt ("attribute sizes of tree %d", t);
      }
    return "";
  case 8: { /* another tree */
    m.cls.push_back (m.cls[n - 1]);
    m.conn.push_back ({});
    m.attr.push_back ({});
    return "one more tree";
  }
  case 9: /* faces of two neighbours swapped: tree t neighbours another face */
    for (int k = 0; k < n; ++k, t = (t + 1) % n)
      for (int f = 0; f < CM_NF[m.cls[t]]; ++f) {
        Conn q = m.conn[t][f];
        if (q.tree < 0 || q.tree == t)
          continue;
        int nv = cm_face_nv (m.cls[t], f);
        for (int f2 = 0; f2 < CM_NF[m.cls[q.tree]]; ++f2)
          if (f2 != q.face && m.conn[q.tree][f2].tree < 0 && cm_face_nv (m.cls[q.tree], f2) == nv) {
            m.conn[q.tree][q.face] = Conn ();
            cm_join (m, t, f, q.tree, f2, q.orient);
            return fmt ("dual face at tree %d face %d", t, f);
          }
      }
    return "";
  }
  return "";
}

static void
run_c19 (i64 nc)
{
  Rng shape (comb (st ().seed, 190));
  for (i64 k = 0; k < nc; ++k) {
    Rng r (comb (shape.next (), k)); /* same on all ranks */
    if (st ().only_case >= 0 && k != st ().only_case)
      continue;
    Rng mine (comb (r.next (), st ().rank + 1));
    const int big = r.chance (0.1) ? 90 : 14;
    CModel m = cm_random (r, big, pkgs);
    std::string desc = m.str ();
    const int before = held_blocks ();
    AttrKeep keep;
    seen ("meshes", m.topo_hash ());
    count ("cases");
    if (k < 3)
      sample (desc.substr (0, 300));
    /* replicated commit */
    bool ow = r.chance (0.3);
    ctx ("case %lld replicated%s %s", (long long) k, ow ? " overwrite" : "", desc.c_str ());
    t8_cmesh_t a = build_replicated (m, mine, keep, ow);
    cm_check (a, m, false, 0, m.n () - 1, "replicated", true);
    if (any_violation ())
      return;
    /* same specification in another order, equality */
    ctx ("case %lld second order %s", (long long) k, desc.c_str ());
    t8_cmesh_t b = build_replicated (m, mine, keep, false);
    VF_CHECK (t8_cmesh_is_equal (a, b) == 1, "equal-order", "two commits of the same specification are not equal");
    VF_CHECK (t8_cmesh_is_equal (a, a) == 1, "equal-self", "mesh not equal to itself");
    t8_cmesh_destroy (&b);
    /* different information is different */
    for (int i = 0; i < 10; ++i) {
      CModel m2 = m;
      std::string what = mutate (m2, r, i);
      if (what.empty ())
        continue;
      ctx ("case %lld mutation %d (%s) of %s", (long long) k, i, what.c_str (), desc.c_str ());
      t8_cmesh_t d = build_replicated (m2, mine, keep, false);
      count ("mutants");
      cm_check (d, m2, false, 0, m2.n () - 1, "mutant", true);
      int e1 = t8_cmesh_is_equal (a, d), e2 = t8_cmesh_is_equal (d, a);
      VF_CHECK (!e1 && !e2, "equal-different", "meshes that differ in %s are reported equal (%d,%d)", what.c_str (), e1, e2);
      t8_cmesh_destroy (&d);
    }
    if (any_violation ())
      return;
    /* derived copy; the original stays intact */
    ctx ("case %lld copy %s", (long long) k, desc.c_str ());
    t8_cmesh_t c;
    t8_cmesh_init (&c);
    t8_cmesh_ref (a);
    t8_cmesh_set_derive (c, a);
    t8_cmesh_commit (c, st ().comm);
    cm_check (c, m, false, 0, m.n () - 1, "copy", true);
    VF_CHECK (t8_cmesh_is_equal (a, c) == 1, "equal-copy", "copy not equal to its original");
    if (r.chance (0.5)) {
      t8_cmesh_unref (&a);
      cm_check (c, m, false, 0, m.n () - 1, "copy-after-destroy", true);
      a = c;
      t8_cmesh_ref (c);
    }
    else
      cm_check (a, m, false, 0, m.n () - 1, "original-after-copy", true);
    t8_cmesh_unref (&c);
    t8_cmesh_unref (&a);
    if (any_violation ())
      return;
    /* broadcast of a specification */
    {
      int root = (int) r.below (st ().size);
      bool commit_first = r.chance (0.3);
      ctx ("case %lld bcast root %d committed %d %s", (long long) k, root, (int) commit_first, desc.c_str ());
      t8_cmesh_t x = NULL;
      if (st ().rank == root) {
        t8_cmesh_init (&x);
        cm_specify (x, m, mine, keep, want_all, want_all, false);
        if (commit_first)
          t8_cmesh_commit (x, sc_MPI_COMM_SELF);
      }
      x = t8_cmesh_bcast (x, root, st ().comm);
      if (!commit_first) {
        /* what is set after the broadcast counts too */
        std::string late (1 + r.below (20), 'x');
        int t = (int) r.below (m.n ());
        AKey lk { pkgs[1], 1000003 };
        if (r.chance (0.5)) { /* as a string: the terminating zero belongs to it */
          t8_cmesh_set_attribute_string (x, t, std::get<0> (lk), std::get<1> (lk), late.c_str ());
          late.push_back ('\0');
        }
        else
          t8_cmesh_set_attribute (x, t, std::get<0> (lk), std::get<1> (lk), &late[0], late.size (), 0);
        CModel m2 = m;
        m2.attr[t][lk] = late;
        t8_cmesh_commit (x, st ().comm);
        cm_check (x, m2, false, 0, m.n () - 1, "bcast", true);
      }
      else
        cm_check (x, m, false, 0, m.n () - 1, "bcast-committed", true);
      count ("bcasts");
      t8_cmesh_destroy (&x);
    }
    if (any_violation ())
      return;
    /* partitioned commit from the specification */
    for (int rep = 0; rep < 2; ++rep) {
      Part p = part_random (r, m.n (), st ().size);
      const int f = p.first[st ().rank], l = p.last[st ().rank];
      bool minimal = r.chance (0.6), by_off = r.chance (0.5);
      ctx ("case %lld partitioned commit %s%s: %s %s", (long long) k, minimal ? "minimal " : "", by_off ? "offsets" : "range",
           part_str (p).c_str (), desc.c_str ());
      std::set<int> need;
      for (int t = f; t <= l; ++t) {
        need.insert (t);
        for (int q = 0; q < CM_NF[m.cls[t]]; ++q)
          if (m.conn[t][q].tree >= 0)
            need.insert (m.conn[t][q].tree);
      }
      std::function<bool (int)> want = [&] (int t) { return !minimal || need.count (t) > 0; };
      t8_cmesh_t x;
      t8_cmesh_init (&x);
      if (l < f || mine.chance (0.5))
        t8_cmesh_set_dimension (x, m.dim);
      auto setp = [&] () {
        if (by_off) {
          t8_shmem_init (st ().comm);
          t8_shmem_set_type (st ().comm, T8_SHMEM_BEST_TYPE);
          t8_shmem_array_t off = t8_cmesh_alloc_offsets (st ().size, st ().comm);
          if (t8_shmem_array_start_writing (off))
            for (int i = 0; i <= st ().size; ++i)
              t8_shmem_array_set_gloidx (off, i, p.off[i]);
          t8_shmem_array_end_writing (off);
          t8_cmesh_set_partition_offsets (x, off);
        }
        else
          t8_cmesh_set_partition_range (x, 3, l < f ? f : (p.shared[st ().rank] ? -(t8_gloidx_t) f - 1 : f), l);
      };
      bool first = r.chance (0.5);
      if (first)
        setp ();
      const Rng mine0 = mine;
      cm_specify (x, m, mine, keep, want, want, false);
      if (!first)
        setp ();
      t8_cmesh_commit (x, st ().comm);
      cm_check (x, m, true, f, l, "partitioned", true);
      count ("partitioned_commits");
      if (r.chance (0.4)) {
        /* the same specification again is equal; one with another byte in an attribute is not, where that is known */
        CModel m2 = m;
        int t = (int) r.below (m.n ());
        for (int i = 0; i < m.n () && m2.attr[t].empty (); ++i)
          t = (t + 1) % m.n ();
        std::string *val = NULL;
        for (auto &a : m2.attr[t])
          if (!a.second.empty ())
            val = &a.second;
        const bool differ = val != NULL && r.chance (0.5);
        if (differ)
          (*val)[r.below (val->size ())] ^= 1;
        t8_cmesh_t y;
        t8_cmesh_init (&y);
        t8_cmesh_set_dimension (y, m.dim);
        std::swap (x, y);
        setp ();
        std::swap (x, y);
        Rng again = mine0;
        cm_specify (y, m2, again, keep, want, want, false);
        t8_cmesh_commit (y, st ().comm);
        const int e1 = t8_cmesh_is_equal (x, y), e2 = t8_cmesh_is_equal (y, x), expect = !(differ && need.count (t) > 0);
        VF_CHECK (!!e1 == expect && !!e2 == expect, "equal-partitioned", "partitioned meshes %s compare as %d and %d",
                  expect ? "of the same information" : "with different attributes", e1, e2);
        count (expect ? "equal_partitioned" : "unequal_partitioned");
        t8_cmesh_destroy (&y);
      }
      t8_cmesh_destroy (&x);
      if (any_violation ())
        return;
    }
    ctx ("case %lld memory balance %s", (long long) k, desc.c_str ());
    VF_CHECK (held_blocks () == before, "leak", "%d blocks held after destroying every mesh, %d before", held_blocks (), before);
    if (any_violation ())
      return;
  }
}

/* ------------------------------------------------------------------ C20 */
static void
check_table (t8_cmesh_t c, const Part &p, bool exact, const char *key)
{
  t8_shmem_array_t tab = t8_cmesh_get_partition_table (c);
  VF_CHECK (tab != NULL, "table", "%s: no partition table", key);
  if (tab == NULL)
    return;
  const t8_gloidx_t *o = t8_shmem_array_get_gloidx_array (tab);
  for (int i = 0; i < st ().size; ++i) {
    const bool e = p.last[i] < p.first[i];
    VF_CHECK (!!t8_offset_empty (i, o) == e, "table-empty", "%s: process %d empty %d", key, i, t8_offset_empty (i, o));
    if (!e) {
      VF_CHECK (t8_offset_first (i, o) == p.first[i] && t8_offset_last (i, o) == p.last[i] && (o[i] < 0) == !!p.shared[i], "table-range",
                "%s: process %d has entry %lld: trees %lld..%lld, expected %d..%d shared %d", key, i, (long long) o[i],
                (long long) t8_offset_first (i, o), (long long) t8_offset_last (i, o), p.first[i], p.last[i], p.shared[i]);
    }
    if (exact)
      VF_CHECK (o[i] == p.off[i], "table-entry", "%s: entry %d is %lld instead of %lld", key, i, (long long) o[i], (long long) p.off[i]);
  }
  VF_CHECK (o[st ().size] == p.off[st ().size], "table-end", "%s: last entry %lld", key, (long long) o[st ().size]);
}

static i64
scheme_count (const t8_scheme_c *s, int cls, int level)
{
  return s->count_leaves_from_root ((t8_eclass_t) cls, level);
}

/* own reading of a table; false if it is not a partition of the trees 0..n-1 */
static bool
part_read (const t8_gloidx_t *o, int n, int P, Part &p)
{
  p.first.assign (P, 0);
  p.last.assign (P, -1);
  p.shared.assign (P, 0);
  p.off.assign (o, o + P + 1);
  if (o[0] != 0 || o[P] != n)
    return false;
  i64 done = 0; /* trees below are owned */
  for (int i = 0; i < P; ++i) {
    const i64 f = o[i] < 0 ? -o[i] - 1 : o[i], nf = o[i + 1] < 0 ? -o[i + 1] - 1 : o[i + 1];
    const i64 l = o[i + 1] < 0 ? nf : nf - 1;
    if (l < f) {
      if (o[i] < 0 || l != f - 1 || f != done)
        return false;
    }
    else if (o[i] < 0 ? f != done - 1 : f != done)
      return false;
    if (l >= n)
      return false;
    p.first[i] = (int) f;
    p.last[i] = (int) l;
    p.shared[i] = o[i] < 0;
    done = l + 1;
  }
  return done == n;
}

static void
run_c20 (i64 nc)
{
  const int P = st ().size, me = st ().rank;
  Rng shape (comb (st ().seed, 200));
  const t8_scheme_c *schemes[2] = { t8_scheme_new_default (), t8_scheme_new_standalone () };
  for (i64 k = 0; k < nc; ++k) {
    Rng r (comb (shape.next (), k));
    if (st ().only_case >= 0 && k != st ().only_case)
      continue;
    Rng mine (comb (r.next (), me + 1));
    CModel m = cm_random (r, r.chance (0.15) ? 120 : r.chance (0.5) ? 2 * P + 2 : 20, pkgs);
    std::string desc = m.str ();
    const int before = held_blocks ();
    AttrKeep keep;
    seen ("meshes", m.topo_hash ());
    count ("cases");
    if (k < 3)
      sample (desc.substr (0, 300));
    t8_cmesh_t cur;
    Part p;
    bool part = r.chance (0.5);
    std::string hist;
    if (!part) {
      ctx ("case %lld replicated %s", (long long) k, desc.c_str ());
      cur = build_replicated (m, mine, keep, false);
    }
    else {
      p = part_random (r, m.n (), P);
      hist = "stash " + part_str (p);
      ctx ("case %lld %s: %s", (long long) k, hist.c_str (), desc.c_str ());
      t8_cmesh_init (&cur);
      t8_cmesh_set_dimension (cur, m.dim);
      const int f = p.first[me], l = p.last[me];
      t8_cmesh_set_partition_range (cur, 3, l < f ? f : (p.shared[me] ? -(t8_gloidx_t) f - 1 : f), l);
      cm_specify (cur, m, mine, keep, want_all, want_all, false);
      t8_cmesh_commit (cur, st ().comm);
      cm_check (cur, m, true, p.first[me], p.last[me], "stash-part", true);
      check_table (cur, p, false, "stash");
    }
    int steps = r.range (1, 4);
    for (int s = 0; s < steps && !any_violation (); ++s) {
      t8_cmesh_t nx;
      t8_cmesh_init (&nx);
      bool keep_old = r.chance (0.4);
      if (keep_old)
        t8_cmesh_ref (cur);
      t8_cmesh_set_derive (nx, cur);
      Part np;
      int kind = r.range (0, 3);
      std::string h;
      if (kind == 0 && r.chance (0.8))
        kind = 1;
      if (kind == 0) { /* copy of whatever it is */
        h = "copy";
        np = p;
      }
      else if (kind <= 2) {
        np = part_random (r, m.n (), P);
        if (kind == 2 && part && r.chance (0.6)) { /* small shift of the old cuts */
          std::vector<i64> cut (P + 1), to;
          for (int i = 0; i <= m.n (); ++i)
            to.push_back (2 * i);
          for (int i = 0; i < P; ++i)
            cut[i] = std::max<i64> (0, std::min<i64> (2 * m.n (), 2 * (i64) p.first[i] + p.shared[i] + r.range (-1, 1)));
          cut[0] = 0;
          cut[P] = 2 * m.n ();
          std::sort (cut.begin (), cut.end ());
          np = part_from_cuts (cut, to, P);
        }
        h = part_str (np);
        bool plain = part;
        for (int i = 0; plain && i < P; ++i)
          plain = p.last[i] >= p.first[i] && !p.shared[i];
        const bool lib_table = r.chance (0.25);
        const int pct = r.chance (0.3) ? 50 : r.range (0, 100), sh = r.range (0, 1);
        const unsigned rs = 1 + (unsigned) r.below (1000000);
        t8_shmem_init (st ().comm);
        t8_shmem_set_type (st ().comm, T8_SHMEM_BEST_TYPE);
        t8_shmem_array_t off;
        if (lib_table) {
          const t8_gloidx_t *o;
          if (plain) {
            h = fmt ("send %d percent", pct);
            ctx ("case %lld %s | %s: %s", (long long) k, hist.c_str (), h.c_str (), desc.c_str ());
            off = pct == 50 ? t8_cmesh_offset_half (cur, st ().comm) : t8_cmesh_offset_percent (cur, st ().comm, pct);
            o = t8_shmem_array_get_gloidx_array (off);
            for (int i = 0; i <= P; ++i) {
              const i64 e = i == P ? m.n () : i == 0 ? 0 : p.first[i] - (p.last[i - 1] - p.first[i - 1] + 1) * pct / 100;
              VF_CHECK (o[i] == e, "table-percent", "%d percent: entry %d is %lld instead of %lld", pct, i, (long long) o[i], (long long) e);
            }
          }
          else {
            h = fmt ("random table seed %u shared %d", rs, sh);
            ctx ("case %lld %s | %s: %s", (long long) k, hist.c_str (), h.c_str (), desc.c_str ());
            off = t8_cmesh_offset_random (st ().comm, m.n (), sh, rs);
            o = t8_shmem_array_get_gloidx_array (off);
          }
          std::vector<i64> oo (o, o + P + 1);
          for (int i = 0; !sh && !plain && i <= P; ++i)
            VF_CHECK (o[i] >= 0, "table-random-shared", "%s: shared tree", h.c_str ());
          const bool ok = part_read (o, m.n (), P, np);
          VF_CHECK (ok, "table-random", "%s: %s is not a partition of %d trees", h.c_str (), part_str (np).c_str (), m.n ());
          count ("library_tables");
          if (any_violation ())
            return;
        }
        else {
          off = t8_cmesh_alloc_offsets (P, st ().comm);
          if (t8_shmem_array_start_writing (off))
            for (int i = 0; i <= P; ++i)
              t8_shmem_array_set_gloidx (off, i, np.off[i]);
          t8_shmem_array_end_writing (off);
        }
        t8_cmesh_set_partition_offsets (nx, off);
      }
      else {
        int lvl = r.range (0, 4), which = r.chance (0.7) ? 0 : 1;
        if (which == 1 && m.dim == 3)
          for (int t = 0; t < m.n (); ++t)
            if (m.cls[t] >= 6) /* standalone prism/pyramid: same counts, kept simple */
              which = 0;
        h = fmt ("uniform level %d scheme %d", lvl, which);
        std::vector<i64> to (1, 0), cut (P + 1);
        for (int t = 0; t < m.n (); ++t)
          to.push_back (to.back () + scheme_count (schemes[which], m.cls[t], lvl));
        for (int i = 0; i <= P; ++i)
          cut[i] = (i64) ((__int128) to.back () * i / P);
        np = part_from_cuts (cut, to, P);
        ((t8_scheme_c *) schemes[which])->ref ();
        t8_cmesh_set_partition_uniform (nx, lvl, schemes[which]);
      }
      hist += " | " + h;
      ctx ("case %lld %s (from %s): %s", (long long) k, hist.c_str (), part ? "partitioned" : "replicated", desc.c_str ());
      const int prof = r.chance (0.2) ? r.range (1, 3) : 0;
      if (prof)
        t8_cmesh_set_profiling (nx, 1);
      if (prof == 2)
        t8_cmesh_set_profiling (nx, 0);
      t8_cmesh_commit (nx, st ().comm);
      if (prof == 3)
        t8_cmesh_print_profile (nx);
      bool npart = part || kind > 0;
      if (npart) {
        cm_check (nx, m, true, np.first[me], np.last[me], "repartition", true);
        check_table (nx, np, false, h.c_str ());
        u64 hh = comb (m.topo_hash (), 7);
        for (int i = 0; i <= P; ++i)
          hh = comb (comb (hh, np.off[i]), part ? p.off[i] : -99);
        seen ("repartitions", hh);
        count ("repartitions");
      }
      else
        cm_check (nx, m, false, 0, m.n () - 1, "copy", true);
      if (keep_old) {
        if (part)
          cm_check (cur, m, true, p.first[me], p.last[me], "source-after", true);
        else
          cm_check (cur, m, false, 0, m.n () - 1, "source-after", true);
        t8_cmesh_unref (&cur);
      }
      cur = nx;
      p = np;
      part = npart;
    }
    if (any_violation ())
      return;
    t8_cmesh_destroy (&cur);
    VF_CHECK (held_blocks () == before, "leak", "%d blocks held after destroying every mesh, %d before", held_blocks (), before);
    if (any_violation ())
      return;
  }
  for (auto s : schemes)
    ((t8_scheme_c *) s)->unref ();
}

/* partition-table arithmetic against brute force, any number of (virtual) processes */
static void
run_offsets (i64 nc)
{
  Rng r (comb (st ().seed, 201 + st ().rank));
  for (i64 k = 0; k < nc; ++k) {
    const int P = r.chance (0.2) ? r.range (1, 3) : r.range (1, 14), n = r.chance (0.3) ? r.range (1, 3) : r.range (1, 25);
    Part a = part_random (r, n, P), b = part_random (r, n, P);
    std::vector<t8_gloidx_t> A (a.off.begin (), a.off.end ()), B (b.off.begin (), b.off.end ());
    ctx ("offset case %lld: P %d trees %d from %s to %s", (long long) k, P, n, part_str (a).c_str (), part_str (b).c_str ());
    u64 h = comb (P, n);
    for (i64 x : a.off)
      h = comb (h, x);
    for (i64 x : b.off)
      h = comb (h, x);
    seen ("tables", h);
    count ("tables");
    auto owns = [] (const Part &p, int q, int t) { return p.first[q] <= t && t <= p.last[q]; };
    for (int q = 0; q < P; ++q) {
      bool e = a.last[q] < a.first[q];
      VF_CHECK (!!t8_offset_empty (q, A.data ()) == e, "offset-empty", "empty(%d)", q);
      VF_CHECK (t8_offset_num_trees (q, A.data ()) == a.last[q] - a.first[q] + 1, "offset-num", "num_trees(%d)=%lld", q,
                (long long) t8_offset_num_trees (q, A.data ()));
      if (!e) {
        VF_CHECK (t8_offset_first (q, A.data ()) == a.first[q], "offset-first", "first(%d)", q);
        VF_CHECK (t8_offset_last (q, A.data ()) == a.last[q], "offset-last", "last(%d)", q);
        VF_CHECK (t8_offset_first_tree_to_entry (a.first[q], a.shared[q]) == A[q], "offset-entry", "entry(%d)", q);
      }
      int nn = q + 1;
      while (nn < P && a.last[nn] < a.first[nn])
        ++nn;
      VF_CHECK (t8_offset_next_nonempty_rank (q, P, A.data ()) == nn, "offset-next-nonempty", "next_nonempty(%d)=%d", q,
                t8_offset_next_nonempty_rank (q, P, A.data ()));
      for (int t = 0; t < n; ++t)
        VF_CHECK (!!t8_offset_in_range (t, q, A.data ()) == owns (a, q, t), "offset-range", "in_range(%d,%d)", t, q);
    }
    for (int t = 0; t < n; ++t) {
      std::vector<int> own;
      for (int q = 0; q < P; ++q)
        if (owns (a, q, t))
          own.push_back (q);
      int any = t8_offset_any_owner_of_tree (P, t, A.data ());
      VF_CHECK (any >= 0 && any < P && owns (a, any, t), "owner-any", "any_owner(%d)=%d", t, any);
      int any2 = t8_offset_any_owner_of_tree_ext (P, (int) r.below (P), t, A.data ());
      VF_CHECK (any2 >= 0 && any2 < P && owns (a, any2, t), "owner-any-ext", "any_owner_ext(%d)=%d", t, any2);
      int so = -1;
      VF_CHECK (t8_offset_first_owner_of_tree (P, t, A.data (), &so) == own.front (), "owner-first", "first_owner(%d)", t);
      VF_CHECK (so >= 0 && owns (a, so, t), "owner-some", "some_owner(%d)=%d", t, so);
      so = r.pick (own);
      VF_CHECK (t8_offset_first_owner_of_tree (P, t, A.data (), &so) == own.front (), "owner-first", "first_owner(%d)", t);
      so = -1;
      VF_CHECK (t8_offset_last_owner_of_tree (P, t, A.data (), &so) == own.back (), "owner-last", "last_owner(%d)", t);
      so = r.pick (own);
      VF_CHECK (t8_offset_last_owner_of_tree (P, t, A.data (), &so) == own.back (), "owner-last", "last_owner(%d)", t);
      for (size_t i = 0; i < own.size (); ++i) {
        int nx = t8_offset_next_owner_of_tree (P, t, A.data (), own[i]), pv = t8_offset_prev_owner_of_tree (P, t, A.data (), own[i]);
        VF_CHECK (nx == (i + 1 < own.size () ? own[i + 1] : -1), "owner-next", "next_owner(%d,%d)=%d", t, own[i], nx);
        VF_CHECK (pv == (i > 0 ? own[i - 1] : -1), "owner-prev", "prev_owner(%d,%d)=%d", t, own[i], pv);
      }
      sc_array_t arr;
      sc_array_init (&arr, sizeof (int));
      t8_offset_all_owners_of_tree (P, t, A.data (), &arr);
      std::vector<int> got;
      for (size_t i = 0; i < arr.elem_count; ++i)
        got.push_back (*(int *) sc_array_index (&arr, i));
      sc_array_reset (&arr);
      VF_CHECK (got == own, "owner-all", "all_owners(%d): %zu instead of %zu", t, got.size (), own.size ());
      count ("owner_queries");
    }
    /* who sends what to whom */
    std::vector<std::vector<int>> snd (P, std::vector<int> (P, 0));
    for (int to = 0; to < P; ++to)
      for (int t = b.first[to]; t <= b.last[to]; ++t) {
        int from = -1;
        if (owns (a, to, t))
          from = to;
        else
          for (int q = 0; q < P && from < 0; ++q)
            if (owns (a, q, t))
              from = q;
        snd[from][to] = 1;
        for (int q = 0; q < P; ++q) {
          int s = t8_offset_sendstree (q, to, t, A.data (), B.data ());
          VF_CHECK (!!s == (q == from), "sends-tree", "sendstree(%d,%d,tree %d)=%d, the sender is %d", q, to, t, s, from);
        }
      }
    for (int q = 0; q < P; ++q) {
      int nsend = 0;
      for (int to = 0; to < P; ++to) {
        nsend += snd[q][to];
        VF_CHECK (!!t8_offset_sendsto (q, to, A.data (), B.data ()) == snd[q][to], "sends-to", "sendsto(%d,%d)=%d", q, to,
                  t8_offset_sendsto (q, to, A.data (), B.data ()));
      }
      VF_CHECK (!!t8_offset_nosend (q, P, A.data (), B.data ()) == (nsend == 0), "nosend", "nosend(%d)=%d but %d receivers", q,
                t8_offset_nosend (q, P, A.data (), B.data ()), nsend);
      int lo = (int) r.below (P), hi = lo + (int) r.below (P - lo), cnt = 0;
      for (int s = lo; s <= hi; ++s)
        cnt += snd[s][q];
      VF_CHECK (t8_offset_range_send (lo, hi, q, A.data (), B.data ()) == cnt, "range-send", "range_send(%d..%d,%d)=%d instead of %d", lo, hi,
                q, t8_offset_range_send (lo, hi, q, A.data (), B.data ()), cnt);
    }
    if (st ().nviol)
      return;
  }
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  for (int i = 0; i < 2; ++i)
    pkgs.push_back (sc_package_register (NULL, SC_LP_ERROR, i ? "verif_b" : "verif_a", "test package"));
  const i64 n = opt_int ("n", 60);
  if (st ().prop == "C19" || has_opt ("c19"))
    run_c19 ((i64) (n * st ().scale));
  if (st ().prop == "C20" || has_opt ("c20")) {
    if (!has_opt ("no-offsets"))
      run_offsets ((i64) (20 * n * st ().scale));
    if (!any_violation ())
      run_c20 ((i64) (n * st ().scale));
  }
  return finish ();
}
