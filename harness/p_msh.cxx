/* C23: gmsh files (version 4, text).  Files are written from random conforming meshes in many layouts and compared with
 * what is read; broken files have to be refused without a crash, a leak or a disagreement between the processes. */
#include "gmesh.hxx"
#include <t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
#include <sys/stat.h>

using namespace vf;

/* node i of a gmsh element is corner MSH[class][i] of the tree (gmsh numbers quads around, t8code in z-order; the
 * tetrahedra of t8code have the other handedness) */
static const int MSH[8][8]
  = { { 0 }, { 0, 1 }, { 0, 1, 3, 2 }, { 0, 1, 2 }, { 0, 1, 3, 2, 4, 5, 7, 6 }, { 0, 1, 3, 2 }, { 0, 1, 2, 3, 4, 5 }, { 0, 1, 3, 2, 4 } };
static const int MSH_TYPE[8] = { 15, 1, 3, 2, 5, 4, 6, 7 };

struct Node
{
  i64 tag;
  int edim, etag, parametric;
  double par[2];
};
struct File
{
  std::vector<std::string> lines; /* without line ends */
  int nodes_at = -1;    /* line with the counts of $Nodes */
  int elements_at = -1; /* line with the counts of $Elements */
  std::vector<int> node_tag_lines, node_coord_lines, node_block_lines, ele_block_lines, ele_lines; /* ele_lines: of the dimension that is read */
  int last_needed = 0;
};

static std::string
write_file (const File &f, const char *eol)
{
  std::string s;
  for (auto &l : f.lines)
    s += l + eol;
  return s;
}

static File
make_file (Rng &r, const GMesh &g, std::vector<Node> &nodes, const std::vector<std::pair<int, int>> &tree_blocks)
{
  File f;
  auto add = [&] (const std::string &s) {
    f.lines.push_back (s);
    return (int) f.lines.size () - 1;
  };
  auto noise = [&] () {
    if (r.chance (0.05))
      add (r.chance (0.5) ? "" : (r.chance (0.5) ? "# a comment" : "  \t"));
  };
  const bool fancy = r.chance (0.25); /* other white space than gmsh writes itself */
  auto sp = [&] () { return std::string (fancy && r.chance (0.3) ? (r.chance (0.5) ? "  " : "\t") : " "); };
  noise ();
  add ("$MeshFormat");
  add ("4.1 0 8");
  add ("$EndMeshFormat");
  if (r.chance (0.3)) {
    add ("$PhysicalNames");
    add ("1");
    add ("2 1 \"$NotNodes\"");
    add ("$EndPhysicalNames");
  }
  if (r.chance (0.5)) {
    add ("$Entities");
    add ("0 0 1 0");
    add ("1 0 0 0 1 1 0 0 0");
    add ("$EndEntities");
  }
  /* nodes: blocks in arbitrary order; only the points used by trees and a few others */
  const int np = (int) g.pts.size ();
  std::vector<int> ord (np);
  for (int i = 0; i < np; ++i)
    ord[i] = i;
  for (int i = np; i > 1; --i)
    std::swap (ord[i - 1], ord[r.below (i)]);
  std::vector<std::pair<int, int>> nb;
  for (int i = 0; i < np;) {
    int l = r.chance (0.1) ? 0 : (int) (1 + r.below (r.chance (0.3) ? np - i : std::min (np - i, 5)));
    nb.push_back ({ i, l });
    i += l;
  }
  i64 mn = 1, mx = 1;
  for (auto &n : nodes) {
    mn = std::min (mn, n.tag);
    mx = std::max (mx, n.tag);
  }
  add ("$Nodes");
  f.nodes_at = add (fmt ("%zu %d %lld %lld", nb.size (), np, (long long) mn, (long long) mx));
  for (auto &b : nb) {
    noise ();
    const int edim = r.range (0, 3), etag = r.range (1, 500), par = (edim == 1 || edim == 2) && r.chance (0.5);
    f.node_block_lines.push_back (add (fmt ("%d %d %d %d", edim, etag, par, b.second)));
    for (int i = b.first; i < b.first + b.second; ++i) {
      noise ();
      nodes[ord[i]].edim = edim;
      nodes[ord[i]].etag = etag;
      nodes[ord[i]].parametric = par;
      f.node_tag_lines.push_back (add (fmt ("%lld", (long long) nodes[ord[i]].tag)));
    }
    for (int i = b.first; i < b.first + b.second; ++i) {
      noise ();
      const D3 &p = g.pts[ord[i]];
      std::string s = fmt ("%.17g", p[0]) + sp () + fmt ("%.17g", p[1]) + sp () + fmt ("%.17g", p[2]);
      for (int k = 0; par && k < edim; ++k) {
        nodes[ord[i]].par[k] = r.unit () * 10 - 5;
        s += sp () + fmt ("%.17g", nodes[ord[i]].par[k]);
      }
      f.node_coord_lines.push_back (add (s));
    }
  }
  add ("$EndNodes");
  if (r.chance (0.2)) {
    add ("$Periodic");
    add ("0");
    add ("$EndPeriodic");
  }
  /* elements: the trees in blocks of one class, mixed with blocks of other dimensions */
  std::vector<std::pair<int, std::vector<std::string>>> eb; /* type, lines */
  i64 etag = 1;
  i64 total = 0;
  std::vector<int> mine;
  auto other = [&] () {
    while (r.chance (0.4)) {
      int d;
      do
        d = r.range (0, 3);
      while (d == g.dim);
      std::vector<int> cl;
      for (int c = 0; c < 8; ++c)
        if (S_DIM[c] == d)
          cl.push_back (c);
      const int c = r.pick (cl);
      std::vector<std::string> L;
      for (int i = r.range (0, 4); i > 0; --i) {
        std::string s = fmt ("%lld", (long long) etag++);
        for (int k = 0; k < S_NV[c]; ++k)
          s += fmt (" %lld", (long long) nodes[r.below (np)].tag);
        L.push_back (s + " ");
      }
      total += L.size ();
      eb.push_back ({ MSH_TYPE[c], L });
      mine.push_back (0);
    }
  };
  other ();
  for (auto &b : tree_blocks) {
    std::vector<std::string> L;
    for (int t = b.first; t < b.first + b.second; ++t) {
      std::string s = (fancy && r.chance (0.2) ? " " : "") + fmt ("%lld", (long long) etag);
      etag += r.chance (0.1) ? r.range (1, 100) : 1;
      for (int i = 0; i < S_NV[g.cls[t]]; ++i)
        s += sp () + fmt ("%lld", (long long) nodes[g.tv[t][MSH[g.cls[t]][i]]].tag);
      L.push_back (s + (r.chance (0.8) ? " " : ""));
    }
    total += L.size ();
    eb.push_back ({ MSH_TYPE[g.cls[b.first]], L });
    mine.push_back (1);
    other ();
  }
  add ("$Elements");
  f.elements_at = add (fmt ("%zu %lld 1 %lld", eb.size (), (long long) total, (long long) etag));
  for (size_t b = 0; b < eb.size (); ++b) {
    noise ();
    f.ele_block_lines.push_back (add (fmt ("%d %d %d %zu", 2, r.range (1, 9), eb[b].first, eb[b].second.size ())));
    for (auto &l : eb[b].second) {
      noise ();
      int at = add (l);
      if (mine[b]) {
        f.ele_lines.push_back (at);
        f.last_needed = at;
      }
    }
  }
  add ("$EndElements");
  return f;
}

static std::string dir;
static void
put_file (const std::string &name, const std::string &data)
{
  if (st ().rank == 0) {
    FILE *o = fopen ((dir + "/" + name + ".msh").c_str (), "wb");
    fwrite (data.data (), 1, data.size (), o);
    fclose (o);
  }
  MPI_Barrier (MPI_COMM_WORLD);
}
static void
drop_file (const std::string &name)
{
  MPI_Barrier (MPI_COMM_WORLD);
  if (st ().rank == 0)
    unlink ((dir + "/" + name + ".msh").c_str ());
}

static t8_cmesh_t
read_file (const std::string &name, int dim, int partition, int master, bool valid)
{
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  if (!valid) /* the debug-only validation of the geometry at commit is not what is looked at */
    t8_cmesh_disable_negative_volume_check (c);
  t8_cmesh_from_msh_file (&c, (dir + "/" + name).c_str (), partition, sc_MPI_COMM_WORLD, dim, master, 0);
  /* all processes get a mesh or none */
  int have = c != NULL, lo, hi;
  MPI_Allreduce (&have, &lo, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
  MPI_Allreduce (&have, &hi, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  VF_CHECK (lo == hi, "disagree", "this process got %s mesh, another did not agree", have ? "a" : "no");
  return c;
}

static std::vector<std::string>
words (const std::string &l)
{
  std::vector<std::string> w;
  size_t i = 0;
  while (i < l.size ()) {
    size_t j = l.find_first_of (" \t", i);
    if (j == std::string::npos)
      j = l.size ();
    if (j > i)
      w.push_back (l.substr (i, j - i));
    i = j + 1;
  }
  return w;
}
static std::string
unwords (const std::vector<std::string> &w)
{
  std::string s;
  for (size_t i = 0; i < w.size (); ++i)
    s += (i ? " " : "") + w[i];
  return s;
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  char tmpl[1024] = "";
  if (st ().rank == 0) {
    snprintf (tmpl, sizeof tmpl, "%s/vfmsh.XXXXXX", st ().workdir.c_str ());
    if (!mkdtemp (tmpl))
      return 3;
  }
  MPI_Bcast (tmpl, sizeof tmpl, MPI_CHAR, 0, MPI_COMM_WORLD);
  dir = tmpl;
  Rng shape (comb (st ().seed, 2301));
  const i64 nc = (i64) (opt_int ("n", 40) * st ().scale);
  for (i64 k = 0; k < nc; ++k) {
    Rng r (comb (shape.next (), k));
    if (st ().only_case >= 0 && k != st ().only_case)
      continue;
    GmOpt o;
    o.max_cells = r.chance (0.15) ? 40 : 10;
    o.unit = r.chance (0.3);
    o.planar = r.chance (0.7);
    GMesh g = gm_random (r, o);
    /* blocks of one class each; the tree order is the order in the file */
    std::vector<int> ord (g.n ());
    for (int t = 0; t < g.n (); ++t)
      ord[t] = t;
    if (r.chance (0.6))
      std::stable_sort (ord.begin (), ord.end (), [&] (int a, int b) { return g.cls[a] < g.cls[b]; });
    GMesh h = g;
    for (int t = 0; t < g.n (); ++t) {
      h.cls[t] = g.cls[ord[t]];
      h.tv[t] = g.tv[ord[t]];
    }
    g = h;
    std::vector<std::pair<int, int>> blocks;
    for (int t = 0; t < g.n ();) {
      int e = t + 1;
      while (e < g.n () && g.cls[e] == g.cls[t] && r.chance (0.9))
        ++e;
      blocks.push_back ({ t, e - t });
      t = e;
    }
    /* node tags: consecutive or not, small or large */
    std::vector<Node> nodes (g.pts.size ());
    const int tagmode = r.range (0, 3);
    std::vector<i64> tags;
    i64 tag = tagmode == 3 ? (i64) r.below (1ll << 40) + 1 : 1;
    for (size_t i = 0; i < nodes.size (); ++i) {
      tags.push_back (tag);
      tag += tagmode == 0 ? 1 : 1 + (i64) r.below (tagmode == 1 ? 4 : 100000);
    }
    if (tagmode != 0 || r.chance (0.5))
      for (size_t i = tags.size (); i > 1; --i)
        std::swap (tags[i - 1], tags[r.below (i)]);
    for (size_t i = 0; i < nodes.size (); ++i)
      nodes[i].tag = tags[i];
    File f = make_file (r, g, nodes, blocks);
    const char *eol = r.chance (0.1) ? "\r\n" : "\n";
    ctx ("case %lld tagmode %d %s", (long long) k, tagmode, g.str ().c_str ());
    if (k < 3)
      sample (g.str ().substr (0, 200));
    seen ("files", hash_str (write_file (f, eol)));
    count ("cases");
    CModel m = gm_model (g, true);
    const int before = held_blocks ();
    /* 1. the file as it is */
    put_file ("a", write_file (f, eol));
    for (int pass = 0; pass < 2; ++pass) {
      const int partition = pass, master = (int) r.below (st ().size);
      t8_cmesh_t c = read_file ("a", g.dim, partition, master, true);
      VF_CHECK (c != NULL, "refused", "a correct file was refused (partition %d, master %d)", partition, master);
      if (c) {
        count (partition ? "partitioned_reads" : "replicated_reads");
        const bool here = !partition || master == st ().rank;
        int first = here ? 0 : 0, last = here ? g.n () - 1 : -1;
        if (partition && st ().rank > master)
          first = g.n (), last = g.n () - 1;
        CModel mm = m;
        /* attributes: compared below as far as the file determines them */
        cm_check (c, mm, partition, first, last, "file", true);
        if (here && !st ().nviol)
          for (int t = 0; t < g.n (); ++t) {
            const int nv = S_NV[g.cls[t]];
            const int *ed = (const int *) t8_cmesh_get_attribute (c, t8_get_package_id (), T8_CMESH_NODE_GEOMETRY_ATTRIBUTE_KEY, t);
            const double *pa = (const double *) t8_cmesh_get_attribute (c, t8_get_package_id (), T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY, t);
            if (ed)
              for (int i = 0; i < nv; ++i) {
                const Node &n = nodes[g.tv[t][i]];
                VF_CHECK (ed[2 * i] == n.edim && ed[2 * i + 1] == n.etag, "node-entity", "tree %d corner %d: entity (%d, %d) instead of (%d, %d)", t, i,
                          ed[2 * i], ed[2 * i + 1], n.edim, n.etag);
                count ("node_entities");
                if (pa && n.parametric)
                  for (int q = 0; q < n.edim; ++q) {
                    VF_CHECK (pa[2 * i + q] == n.par[q], "node-parameter", "tree %d corner %d: parameter %d is %.17g instead of %.17g", t, i, q, pa[2 * i + q],
                              n.par[q]);
                    count ("node_parameters");
                  }
              }
            VF_CHECK (ed && pa, "node-data", "tree %d has no node data", t);
          }
        if (!partition && t8_cmesh_uses_vertex_connectivity (c)) {
          /* equal ids exactly for equal nodes */
          std::map<i64, i64> id_of, tag_of;
          for (int t = 0; t < g.n () && !st ().nviol; ++t) {
            int nv = 0;
            const t8_gloidx_t *p = t8_cmesh_get_global_vertices_of_tree (c, t, &nv);
            VF_CHECK (nv == S_NV[g.cls[t]], "num-vertex-ids", "tree %d has %d vertex ids", t, nv);
            for (int i = 0; i < nv && i < S_NV[g.cls[t]]; ++i) {
              const i64 tg = nodes[g.tv[t][i]].tag;
              auto a = id_of.insert ({ tg, p[i] }), b = tag_of.insert ({ p[i], tg });
              VF_CHECK (a.first->second == p[i] && b.first->second == tg, "vertex-id", "tree %d corner %d: node %lld has the global vertex id %lld, as node %lld", t, i,
                        (long long) tg, (long long) p[i], (long long) b.first->second);
              count ("vertex_ids");
            }
          }
        }
        t8_cmesh_destroy (&c);
      }
    }
    VF_CHECK (held_blocks () == before, "leak", "%d blocks held after reading, %d before", held_blocks (), before);
    drop_file ("a");
    if (any_violation ())
      break;
    /* 2. broken files */
    for (int b = 0; b < 12; ++b) {
      File x = f;
      const int kind = r.range (0, 15);
      bool must = true; /* certainly not a valid mesh file any more */
      std::string data, what;
      int dim = g.dim;
      auto edit = [&] (int line, int word, const std::string &v) {
        auto w = words (x.lines[line]);
        if (word < 0)
          word += (int) w.size ();
        w[word] = v;
        x.lines[line] = unwords (w);
      };
      auto any = [&] (const std::vector<int> &v) { return v[r.below (v.size ())]; };
      switch (kind) {
      case 0: { /* cut off before the last element */
        std::string s;
        for (int i = 0; i <= x.last_needed; ++i)
          s += x.lines[i] + eol;
        const size_t lastlen = x.lines[x.last_needed].size () + strlen (eol);
        size_t cut = r.below (s.size () - lastlen + 1);
        data = s.substr (0, cut);
        what = fmt ("cut off at byte %zu", cut);
        break;
      }
      case 1: { /* an unknown node */
        i64 t = r.chance (0.3) ? 0 : r.chance (0.3) ? -1 : tag + 5 + (i64) r.below (1000);
        int l = any (x.ele_lines);
        edit (l, 1 + (int) r.below (words (x.lines[l]).size () - 1), fmt ("%lld", (long long) t));
        what = "element with an unknown node";
        break;
      }
      case 2: { /* too few nodes */
        int l = any (x.ele_lines);
        auto w = words (x.lines[l]);
        w.resize (r.range (1, (int) w.size () - 1));
        x.lines[l] = unwords (w) + (r.chance (0.5) ? " " : "");
        what = "element with too few nodes";
        break;
      }
      case 3: { /* element block counts too many: the lines do not suffice */
        int l = x.ele_block_lines.back ();
        edit (l, 3, r.chance (0.5) ? fmt ("%d", 1000 + r.range (0, 100)) : r.chance (0.5) ? "123456789012" : "2147483647");
        what = "element block too long";
        break;
      }
      case 4:
        edit (x.nodes_at, 1, r.chance (0.5) ? "0" : r.chance (0.5) ? "-3" : "99999999999999");
        what = "node count";
        must = false;
        break;
      case 5:
        edit (x.elements_at, 1, r.chance (0.4) ? "0" : r.chance (0.4) ? "-2" : r.chance (0.5) ? "1" : "99999999999999");
        what = "element count";
        must = false;
        break;
      case 6:
        edit (any (x.node_block_lines), 3, r.chance (0.5) ? "-1" : r.chance (0.5) ? "999999999999" : "2147483648");
        what = "node block count";
        must = true;
        break;
      case 7: { /* duplicated node tag */
        if (x.node_tag_lines.size () < 2) {
          must = false;
          break;
        }
        int a = (int) r.below (x.node_tag_lines.size ()), c;
        do
          c = (int) r.below (x.node_tag_lines.size ());
        while (c == a);
        x.lines[x.node_tag_lines[a]] = x.lines[x.node_tag_lines[c]];
        what = "node defined twice";
        break;
      }
      case 8:
        for (auto &l : x.lines)
          if (l == "4.1 0 8")
            l = r.pick (std::vector<std::string> { "2.2 0 8", "4.1 1 8", "3 0 8", "x", "", "4.1" });
        what = "format line";
        break;
      case 9:
        edit (any (x.ele_block_lines), 2, r.pick (std::vector<std::string> { "0", "8", "9", "14", "16", "99", "-1", "2147483647" }));
        what = "element type";
        break;
      case 10: { /* no elements of this dimension: wrong dimension requested */
        for (auto &l : x.lines)
          if (l == "$Elements")
            l = "$Elementz";
        what = "no elements section";
        break;
      }
      case 11: {
        for (auto &l : x.lines)
          if (l == "$Nodes")
            l = "$Node";
        what = "no nodes section";
        break;
      }
      case 12: { /* not a number */
        int w = r.range (0, 3);
        if (w == 0)
          x.lines[any (x.node_tag_lines)] = "abc";
        else if (w == 1)
          edit (any (x.node_coord_lines), r.range (0, 2), "nope");
        else if (w == 2) {
          int l = any (x.ele_lines);
          edit (l, 1 + (int) r.below (words (x.lines[l]).size () - 1), "?");
        }
        else
          edit (any (x.ele_block_lines), 3, "?");
        what = "not a number";
        break;
      }
      case 13: /* an element with equal nodes */
      {
        int l = any (x.ele_lines);
        auto w = words (x.lines[l]);
        must = w.size () > 2;
        if (must)
          edit (l, -1, w[1]);
        what = "element with equal nodes";
        break;
      }
      case 14: { /* deleted, doubled or swapped lines */
        must = false;
        for (int i = r.range (1, 3); i > 0; --i) {
          int a = (int) r.below (x.lines.size ()), c = (int) r.below (x.lines.size ());
          int w = r.range (0, 2);
          if (w == 0)
            x.lines.erase (x.lines.begin () + a);
          else if (w == 1)
            x.lines.insert (x.lines.begin () + a, x.lines[c]);
          else
            std::swap (x.lines[a], x.lines[c]);
        }
        what = "lines mixed up";
        break;
      }
      default: { /* arbitrary bytes */
        must = false;
        data = write_file (x, eol);
        for (int i = r.range (1, 8); i > 0; --i) {
          size_t p = r.below (data.size ());
          if (r.chance (0.5))
            data[p] = (char) r.below (256);
          else
            data[p] = "0123456789-. \n"[r.below (14)];
        }
        what = "bytes";
      }
      }
      if (data.empty () && kind != 0)
        data = write_file (x, eol);
      const int partition = r.chance (0.5), master = (int) r.below (st ().size);
      ctx ("case %lld broken %d: %s (kind %d), partition %d; %s", (long long) k, b, what.c_str (), kind, partition, g.str ().c_str ());
      put_file ("b", data);
      t8_cmesh_t c = read_file ("b", dim, partition, master, false);
      count ("broken_files");
      count (fmt ("broken_kind_%d", kind).c_str ());
      if (c) {
        count ("broken_accepted");
        VF_CHECK (!must, "accepted", "a broken file was accepted: %s", what.c_str ());
        VF_CHECK (t8_cmesh_is_committed (c), "accepted-uncommitted", "%s: mesh is not committed", what.c_str ());
        t8_cmesh_destroy (&c);
      }
      else
        count ("refused_files");
      VF_CHECK (held_blocks () == before, "leak-broken", "%s: %d blocks held after reading, %d before", what.c_str (), held_blocks (), before);
      drop_file ("b");
      if (any_violation ())
        break;
    }
    /* 3. a missing file */
    if (r.chance (0.2)) {
      t8_cmesh_t c = read_file ("missing", g.dim, r.chance (0.5), (int) r.below (st ().size), true);
      VF_CHECK (c == NULL, "missing-file", "a file that does not exist was read");
    }
    if (any_violation ())
      break;
  }
  MPI_Barrier (MPI_COMM_WORLD);
  if (st ().rank == 0) {
    unlink ((dir + "/a.msh").c_str ());
    unlink ((dir + "/b.msh").c_str ());
    rmdir (dir.c_str ());
  }
  return finish ();
}
