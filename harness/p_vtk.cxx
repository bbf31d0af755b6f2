/* C29: the files of the built-in VTK writer describe the mesh: every cell of every process once, corners where the
 * geometry puts them, the data of the user, a master file that lists exactly the pieces; failed writes are reported. */
#include "geow.hxx"
#include <fcntl.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h>
#include <t8_data/t8_shmem.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <t8_vtk/t8_vtk.h>
#include <t8_vtk/t8_vtk_writer.h>
#include <t8_forest/t8_forest_io.h>
#include <unistd.h>

static std::string dir;
static bool
my_violation ()
{
  return st ().nviol > 0 || st ().foreign;
}

/* ------------------------------------------------------------------ reading */
struct Node
{
  std::string name, text;
  std::map<std::string, std::string> at;
  std::vector<Node> ch;
  const Node *
  get (const std::string &n) const
  {
    for (const Node &c : ch)
      if (c.name == n)
        return &c;
    return nullptr;
  }
  int
  num (const std::string &n) const
  {
    int k = 0;
    for (const Node &c : ch)
      k += c.name == n;
    return k;
  }
  std::string
  attr (const std::string &n) const
  {
    auto it = at.find (n);
    return it == at.end () ? "" : it->second;
  }
};
struct Parser
{
  const std::string &s;
  size_t i = 0;
  std::string err;
  void
  ws ()
  {
    while (i < s.size () && isspace ((unsigned char) s[i]))
      ++i;
  }
  std::string
  word ()
  {
    size_t a = i;
    while (i < s.size () && (isalnum ((unsigned char) s[i]) || s[i] == '_' || s[i] == ':' || s[i] == '-'))
      ++i;
    return s.substr (a, i - a);
  }
  bool
  fail (const char *w)
  {
    if (err.empty ())
      err = fmt ("%s at byte %zu of %zu", w, i, s.size ());
    return false;
  }
  /* at '<' of an opening tag */
  bool
  element (Node &n)
  {
    if (i >= s.size () || s[i] != '<')
      return fail ("no tag");
    ++i;
    n.name = word ();
    if (n.name.empty ())
      return fail ("no tag name");
    for (;;) {
      ws ();
      if (i >= s.size ())
        return fail ("unfinished tag");
      if (s[i] == '/') {
        if (i + 1 >= s.size () || s[i + 1] != '>')
          return fail ("bad tag");
        i += 2;
        return true;
      }
      if (s[i] == '>') {
        ++i;
        break;
      }
      std::string k = word ();
      ws ();
      if (k.empty () || i >= s.size () || s[i] != '=')
        return fail ("bad attribute");
      ++i;
      ws ();
      if (i >= s.size () || s[i] != '"')
        return fail ("attribute without quotes");
      size_t e = s.find ('"', i + 1);
      if (e == std::string::npos)
        return fail ("unfinished attribute");
      if (n.at.count (k))
        return fail ("an attribute twice");
      n.at[k] = s.substr (i + 1, e - i - 1);
      i = e + 1;
    }
    for (;;) {
      size_t e = s.find ('<', i);
      if (e == std::string::npos)
        return fail ("unclosed element");
      n.text += s.substr (i, e - i);
      i = e;
      if (i + 1 < s.size () && s[i + 1] == '/') {
        i += 2;
        if (word () != n.name)
          return fail ("mismatched closing tag");
        ws ();
        if (i >= s.size () || s[i] != '>')
          return fail ("bad closing tag");
        ++i;
        return true;
      }
      n.ch.emplace_back ();
      if (!element (n.ch.back ()))
        return false;
    }
  }
  bool
  document (Node &n)
  {
    ws ();
    if (s.compare (i, 5, "<?xml") == 0) {
      size_t e = s.find ("?>", i);
      if (e == std::string::npos)
        return fail ("no end of the xml declaration");
      i = e + 2;
    }
    ws ();
    if (!element (n))
      return false;
    ws ();
    return i == s.size () || fail ("text after the end");
  }
};
static bool
slurp (const std::string &f, std::string &out)
{
  FILE *p = fopen (f.c_str (), "rb");
  if (!p)
    return false;
  char b[65536];
  size_t n;
  while ((n = fread (b, 1, sizeof b, p)) > 0)
    out.append (b, n);
  fclose (p);
  return true;
}
static bool
numbers (const std::string &t, std::vector<double> &v)
{
  const char *p = t.c_str (), *end = p + t.size ();
  for (;;) {
    while (p < end && isspace ((unsigned char) *p))
      ++p;
    if (p >= end)
      return true;
    char *e;
    const double x = strtod (p, &e);
    if (e == p || (*e && !isspace ((unsigned char) *e)))
      return false;
    v.push_back (x);
    p = e;
  }
}

/* ------------------------------------------------------------------ cells */
static const int VTK_TYPE[8] = { 1, 3, 9, 5, 12, 10, 13, 14 };
/* number of the t8code corner at every VTK corner: one valid numbering per writer */
static const int ORD_F[8][8] = { { 0 }, { 0, 1 }, { 0, 1, 3, 2 }, { 0, 1, 2 }, { 0, 1, 3, 2, 4, 5, 7, 6 }, { 0, 1, 3, 2 }, { 0, 1, 2, 3, 4, 5 }, { 0, 1, 3, 2, 4 } };
static const int ORD_C[8][8] = { { 0 }, { 0, 1 }, { 0, 1, 3, 2 }, { 0, 1, 2 }, { 0, 1, 3, 2, 4, 5, 7, 6 }, { 0, 2, 1, 3 }, { 0, 2, 1, 3, 5, 4 }, { 0, 1, 3, 2, 4 } };
static const std::vector<std::pair<int, int>> VTK_EDGE[8] = { {},
                                                              { { 0, 1 } },
                                                              { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 } },
                                                              { { 0, 1 }, { 1, 2 }, { 2, 0 } },
                                                              { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 }, { 4, 5 }, { 5, 6 }, { 6, 7 }, { 7, 4 }, { 0, 4 }, { 1, 5 }, { 2, 6 }, { 3, 7 } },
                                                              { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 0, 3 }, { 1, 3 }, { 2, 3 } },
                                                              { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 3, 4 }, { 4, 5 }, { 5, 3 }, { 0, 3 }, { 1, 4 }, { 2, 5 } },
                                                              { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 }, { 0, 4 }, { 1, 4 }, { 2, 4 }, { 3, 4 } } };
static double
orient (int c, const int *p)
{
  /* determinant of the corners of the reference shape in the order p */
  const int far = c == LINE ? 1 : c == HEX ? 4 : c == PRISM ? 3 : S_NV[c] - 1;
  auto d = [&] (int i, int k) { return (double) (S_REF[c][p[i]][k] - S_REF[c][p[0]][k]); };
  switch (S_DIM[c]) {
  case 0:
    return 1;
  case 1:
    return d (1, 0);
  case 2:
    return d (1, 0) * d (2, 1) - d (1, 1) * d (2, 0);
  default:
    return d (1, 0) * (d (2, 1) * d (far, 2) - d (2, 2) * d (far, 1)) - d (1, 1) * (d (2, 0) * d (far, 2) - d (2, 2) * d (far, 0))
           + d (1, 2) * (d (2, 0) * d (far, 1) - d (2, 1) * d (far, 0));
  }
}
struct Cell
{
  int shape = 0;
  std::vector<L3> p; /* corners in t8code's order */
  i64 tree = -1, id = -1;
  int level = 0;
  std::vector<std::vector<double>> data; /* per field */
};
struct Field
{
  std::string name;
  int comp = 1;
};
struct Expect
{
  bool tree = true, rank = true, level = false, id = false;
  std::vector<Field> fields;
  bool cmesh = false;
  int pieces = 1;
};
typedef std::map<std::string, std::pair<std::string, int>> Arrays; /* name -> type, components */
static Arrays
arrays_of (const Node *n, const char *tag, const std::string &what)
{
  Arrays a;
  if (!n)
    return a;
  for (const Node &c : n->ch) {
    VF_CHECK (c.name == tag, "xml", "%s: an element %s", what.c_str (), c.name.c_str ());
    const std::string nm = c.attr ("Name");
    const std::string nc = c.attr ("NumberOfComponents");
    VF_CHECK (!a.count (nm), "array-twice", "%s: array '%s' appears twice", what.c_str (), nm.c_str ());
    VF_CHECK (c.attr ("format") == "ascii", "xml", "%s: format '%s'", what.c_str (), c.attr ("format").c_str ());
    a[nm] = { c.attr ("type"), nc.empty () ? 1 : atoi (nc.c_str ()) };
  }
  return a;
}
static bool
close_to (double a, double b, double scale, double tol)
{
  return fabs (a - b) <= tol * std::max ({ fabs (a), fabs (b), scale });
}
static std::string
show (const Arrays &a)
{
  std::string s;
  for (auto &x : a)
    s += fmt (" %s:%s/%d", x.first.c_str (), x.second.first.c_str (), x.second.second);
  return s;
}
static void
check_vtu (const std::string &file, const std::vector<Cell> &cells, const Expect &E, double size, int rank, Arrays &cd, Arrays &pd, size_t &bytes)
{
  std::string s;
  if (!slurp (file, s)) {
    viol ("file-missing", "%s was not written", file.c_str ());
    return;
  }
  bytes = s.size ();
  Node root;
  Parser p { s };
  if (!p.document (root)) {
    viol ("xml", "%s is not well-formed: %s", file.c_str (), p.err.c_str ());
    return;
  }
  VF_CHECK (root.name == "VTKFile" && root.attr ("type") == "UnstructuredGrid", "xml", "%s: root %s type %s", file.c_str (), root.name.c_str (), root.attr ("type").c_str ());
  const Node *u = root.get ("UnstructuredGrid");
  if (!u || u->num ("Piece") != 1 || u->ch.size () != 1) {
    viol ("xml", "%s: not exactly one piece", file.c_str ());
    return;
  }
  const Node &pc = u->ch[0];
  for (const Node &c : pc.ch)
    VF_CHECK (c.name == "Points" || c.name == "Cells" || c.name == "CellData" || c.name == "PointData", "xml", "%s: piece with %s", file.c_str (), c.name.c_str ());
  const Node *pts = pc.get ("Points"), *cl = pc.get ("Cells"), *cdat = pc.get ("CellData"), *pdat = pc.get ("PointData");
  if (!pts || !cl || pc.num ("Points") != 1 || pc.num ("Cells") != 1 || pc.num ("CellData") > 1 || pc.num ("PointData") > 1 || pts->ch.size () != 1) {
    viol ("xml", "%s: points or cells missing or given twice", file.c_str ());
    return;
  }
  size_t np = 0;
  for (const Cell &c : cells)
    np += c.p.size ();
  VF_CHECK (atoll (pc.attr ("NumberOfCells").c_str ()) == (i64) cells.size (), "cell-count", "%s: %s cells, expected %zu", file.c_str (),
            pc.attr ("NumberOfCells").c_str (), cells.size ());
  const size_t npts = atoll (pc.attr ("NumberOfPoints").c_str ());
  Arrays pa = arrays_of (pts, "DataArray", file);
  VF_CHECK (pa.size () == 1 && pa.begin ()->second.second == 3, "xml", "%s: points%s", file.c_str (), show (pa).c_str ());
  std::vector<double> X, con, off, typ;
  bool ok = numbers (pts->ch[0].text, X);
  Arrays ca = arrays_of (cl, "DataArray", file);
  for (const Node &c : cl->ch) {
    std::vector<double> *v = c.attr ("Name") == "connectivity" ? &con : c.attr ("Name") == "offsets" ? &off : c.attr ("Name") == "types" ? &typ : nullptr;
    if (!v) {
      viol ("xml", "%s: array %s among the cells", file.c_str (), c.attr ("Name").c_str ());
      return;
    }
    ok &= numbers (c.text, *v);
  }
  if (!ok || X.size () != 3 * npts || off.size () != cells.size () || typ.size () != cells.size ()) {
    viol ("array-size", "%s: %zu coordinates for %zu points, %zu offsets, %zu types for %zu cells%s", file.c_str (), X.size (), npts, off.size (), typ.size (), cells.size (),
          ok ? "" : "; not all entries are numbers");
    return;
  }
  /* cells */
  i64 at = 0;
  std::vector<char> used (npts, 0);
  std::vector<size_t> first (cells.size ()); /* position in connectivity */
  for (size_t i = 0; i < cells.size () && !my_violation (); ++i) {
    const Cell &c = cells[i];
    const int nv = (int) c.p.size ();
    const std::string where = fmt ("%s: cell %zu (%s, tree %lld level %d)", file.c_str (), i, S_NAME[c.shape], (long long) c.tree, c.level);
    VF_CHECK (typ[i] == VTK_TYPE[c.shape], "cell-type", "%s has type %g", where.c_str (), typ[i]);
    VF_CHECK (off[i] == at + nv, "offsets", "%s ends at %g, expected %lld", where.c_str (), off[i], (long long) at + nv);
    if (at + nv > (i64) con.size ()) {
      viol ("connectivity", "%s: only %zu corner numbers", where.c_str (), con.size ());
      return;
    }
    int map[8], taken = 0;
    double diam = 0;
    for (int a = 0; a < nv; ++a)
      for (int b = 0; b < a; ++b)
        diam = std::max (diam, (double) norml (c.p[a] - c.p[b]));
    const double tol = 4e-8 * size + 1e-30;
    if (diam < 1e3 * tol) /* too small for the digits written */
      count ("tiny_cells");
    for (int a = 0; a < nv; ++a) {
      const double pi = con[at + a];
      if (!(pi >= 0 && pi < npts)) {
        viol ("connectivity", "%s: corner %d is point %g of %zu", where.c_str (), a, pi, npts);
        return;
      }
      used[(size_t) pi] = 1;
      const double *x = &X[3 * (size_t) pi];
      int best = -1;
      ld bd = 1e300L;
      for (int b = 0; b < nv; ++b) {
        const ld dd = norml (L3 { x[0], x[1], x[2] } - c.p[b]);
        if (dd < bd && !(taken >> b & 1))
          bd = dd, best = b;
      }
      VF_CHECK (best >= 0 && bd <= tol, "corner-position", "%s: corner %d is at (%.9g,%.9g,%.9g), no free corner of the element is there (nearest is %Lg away)", where.c_str (), a, x[0],
                x[1], x[2], bd);
      if (best < 0)
        return;
      map[a] = best;
      taken |= 1 << best;
    }
    if (diam >= 1e3 * tol && !my_violation ()) {
      /* a numbering VTK would draw as this cell */
      const int(*O)[8] = E.cmesh ? ORD_C : ORD_F;
      for (auto &e : VTK_EDGE[c.shape]) {
        bool found = false;
        for (auto &q : VTK_EDGE[c.shape]) {
          const int a = O[c.shape][q.first], b = O[c.shape][q.second];
          found |= (map[e.first] == a && map[e.second] == b) || (map[e.first] == b && map[e.second] == a);
        }
        VF_CHECK (found, "corner-order", "%s: the VTK edge %d-%d joins corners %d and %d of the element, which is no edge of it", where.c_str (), e.first, e.second, map[e.first],
                  map[e.second]);
      }
      VF_CHECK (orient (c.shape, map) * orient (c.shape, O[c.shape]) > 0, "corner-orientation", "%s: the corners are written in mirrored order (0->%d 1->%d 2->%d)", where.c_str (), map[0],
                map[1], nv > 2 ? map[2] : -1);
    }
    first[i] = at;
    at += nv;
  }
  if (my_violation ())
    return;
  VF_CHECK ((i64) con.size () == at, "connectivity", "%s: %zu corner numbers, the cells have %lld", file.c_str (), con.size (), (long long) at);
  for (size_t i = 0; i < npts; ++i)
    VF_CHECK (used[i], "stray-point", "%s: point %zu belongs to no cell", file.c_str (), i);
  /* cell data */
  cd = arrays_of (cdat, "DataArray", file);
  pd = arrays_of (pdat, "DataArray", file);
  std::set<std::string> want_c, want_p, got_c, got_p;
  if (E.tree)
    want_c.insert ("treeid");
  if (E.rank)
    want_c.insert ("mpirank");
  if (E.level)
    want_c.insert ("level");
  if (E.id)
    want_c.insert ("element_id");
  for (auto &f : E.fields)
    want_c.insert (f.name), want_p.insert (f.name + "_points");
  for (auto &a : cd)
    got_c.insert (a.first);
  for (auto &a : pd)
    got_p.insert (a.first);
  VF_CHECK (want_c == got_c, "cell-arrays", "%s: cell arrays%s", file.c_str (), show (cd).c_str ());
  VF_CHECK (want_p == got_p, "point-arrays", "%s: point arrays%s", file.c_str (), show (pd).c_str ());
  if (my_violation ())
    return;
  if (cdat)
    for (const Node &c : cdat->ch) {
      const std::string nm = c.attr ("Name");
      std::vector<double> v;
      const bool num = numbers (c.text, v);
      int fi = -1;
      for (size_t k = 0; k < E.fields.size (); ++k)
        if (E.fields[k].name == nm)
          fi = (int) k;
      const int comp = fi >= 0 ? E.fields[fi].comp : 1;
      VF_CHECK (cd[nm].second == comp, "components", "%s: array %s has %d components", file.c_str (), nm.c_str (), cd[nm].second);
      if (!num || v.size () != cells.size () * comp) {
        viol ("array-size", "%s: cell array %s has %zu entries, expected %zu", file.c_str (), nm.c_str (), v.size (), cells.size () * comp);
        return;
      }
      for (size_t i = 0; i < cells.size () && !my_violation (); ++i)
        for (int k = 0; k < comp; ++k) {
          const Cell &x = cells[i];
          const double g = v[i * comp + k];
          const double e = fi >= 0 ? x.data[fi][k] : nm == "treeid" ? (double) x.tree : nm == "mpirank" ? (double) rank : nm == "level" ? (double) x.level : (double) x.id;
          if (fi >= 0)
            VF_CHECK (close_to (g, e, 0, 2e-5), "cell-value", "%s: %s[%d] of cell %zu is %.9g, the data given is %.9g", file.c_str (), nm.c_str (), k, i, g, e);
          else
            VF_CHECK (g == e, (nm == "treeid" ? "cell-treeid" : nm == "mpirank" ? "cell-rank" : nm == "level" ? "cell-level" : "cell-id"), "%s: %s of cell %zu is %.17g, expected %.17g",
                      file.c_str (), nm.c_str (), i, g, e);
        }
    }
  if (pdat)
    for (const Node &c : pdat->ch) {
      const std::string nm = c.attr ("Name");
      std::vector<double> v;
      const bool num = numbers (c.text, v);
      int fi = 0;
      for (size_t k = 0; k < E.fields.size (); ++k)
        if (E.fields[k].name + "_points" == nm)
          fi = (int) k;
      const int comp = E.fields[fi].comp;
      VF_CHECK (pd[nm].second == comp, "components", "%s: point array %s has %d components", file.c_str (), nm.c_str (), pd[nm].second);
      if (!num || v.size () != npts * comp) {
        viol ("array-size", "%s: point array %s has %zu entries, expected %zu", file.c_str (), nm.c_str (), v.size (), npts * comp);
        return;
      }
      for (size_t i = 0; i < cells.size () && !my_violation (); ++i)
        for (size_t a = 0; a < cells[i].p.size (); ++a)
          for (int k = 0; k < comp; ++k) {
            const double g = v[(size_t) con[first[i] + a] * comp + k], e = cells[i].data[fi][k];
            VF_CHECK (close_to (g, e, 0, 2e-5), "point-value", "%s: %s[%d] at corner %zu of cell %zu is %.9g, the data given is %.9g", file.c_str (), nm.c_str (), k, a, i, g, e);
          }
    }
  count ("files_checked");
  count ("cells_checked", (i64) cells.size ());
  if (cells.empty ())
    count ("empty_pieces");
}
static void
check_pvtu (const std::string &prefix, const Expect &E, const Arrays &cd, const Arrays &pd)
{
  const std::string file = prefix + ".pvtu", base = prefix.substr (prefix.rfind ('/') + 1);
  std::string s;
  if (!slurp (file, s)) {
    viol ("file-missing", "%s was not written", file.c_str ());
    return;
  }
  Node root;
  Parser p { s };
  if (!p.document (root)) {
    viol ("pvtu-xml", "%s is not well-formed: %s", file.c_str (), p.err.c_str ());
    return;
  }
  const Node *u = root.get ("PUnstructuredGrid");
  if (root.name != "VTKFile" || root.attr ("type") != "PUnstructuredGrid" || !u || root.ch.size () != 1) {
    viol ("pvtu-xml", "%s: no single parallel grid", file.c_str ());
    return;
  }
  std::vector<std::string> src;
  for (const Node &c : u->ch) {
    VF_CHECK (c.name == "Piece" || c.name == "PPoints" || c.name == "PCellData" || c.name == "PPointData", "pvtu-xml", "%s: element %s in the grid", file.c_str (), c.name.c_str ());
    if (c.name == "Piece")
      src.push_back (c.attr ("Source"));
  }
  VF_CHECK (u->num ("PPoints") == 1 && u->num ("PCellData") <= 1 && u->num ("PPointData") <= 1, "pvtu-xml", "%s: sections missing or repeated", file.c_str ());
  std::vector<std::string> expect;
  for (int q = 0; q < E.pieces; ++q)
    expect.push_back (fmt ("%s_%04d.vtu", base.c_str (), q));
  VF_CHECK (src == expect, "pvtu-pieces", "%s lists %zu pieces (first %s), expected %d", file.c_str (), src.size (), src.empty () ? "none" : src[0].c_str (), E.pieces);
  const Arrays pc = arrays_of (u->get ("PCellData"), "PDataArray", file), pp = arrays_of (u->get ("PPointData"), "PDataArray", file);
  VF_CHECK (pc == cd, "pvtu-cell-arrays", "%s declares the cell arrays%s, the pieces have%s", file.c_str (), show (pc).c_str (), show (cd).c_str ());
  VF_CHECK (pp == pd, "pvtu-point-arrays", "%s declares the point arrays%s, the pieces have%s", file.c_str (), show (pp).c_str (), show (pd).c_str ());
  count ("masters_checked");
}

/* ------------------------------------------------------------------ workloads */
static std::vector<std::string>
listing ()
{
  std::vector<std::string> v;
  FILE *p = popen (("ls -A " + dir).c_str (), "r");
  char b[512];
  while (p && fgets (b, sizeof b, p))
    v.push_back (std::string (b, strcspn (b, "\n")));
  if (p)
    pclose (p);
  return v;
}
static void
wipe ()
{
  PMPI_Barrier (st ().comm);
  if (st ().rank == 0)
    for (auto &f : listing ())
      unlink ((dir + "/" + f).c_str ());
  PMPI_Barrier (st ().comm);
}
static void
check_listing (const std::string &base, int pieces, int me)
{
  PMPI_Barrier (st ().comm);
  if (me != 0)
    return;
  std::vector<std::string> e { base + ".pvtu" }, g = listing ();
  for (int q = 0; q < pieces; ++q)
    e.push_back (fmt ("%s_%04d.vtu", base.c_str (), q));
  std::sort (e.begin (), e.end ());
  std::sort (g.begin (), g.end ());
  if (e != g) {
    std::string a;
    for (auto &x : g)
      a += " " + x;
    viol ("file-set", "files written:%s, expected %s.pvtu and %d pieces", a.c_str (), base.c_str (), pieces);
  }
}
static void
corners (const World &w, const GWorld &G, const Geo &g, int t, Cell &c)
{
  c.shape = g.shape;
  for (int i = 0; i < g.nv; ++i) {
    double ref[3];
    for (int d = 0; d < 3; ++d)
      ref[d] = ldexp ((double) g.v[i][d], -FK);
    c.p.push_back (gw_map (G, w.m, t, ref));
  }
}
/* writes with the output of the library silenced; the file size is limited to lim bytes if lim >= 0 */
template <class F>
static int
limited (i64 lim, F f)
{
  fflush (stdout);
  fflush (stderr);
  const int so = dup (1), se = dup (2), nul = open ("/dev/null", O_WRONLY);
  dup2 (nul, 1);
  dup2 (nul, 2);
  struct rlimit old;
  getrlimit (RLIMIT_FSIZE, &old);
  auto oldsig = signal (SIGXFSZ, SIG_IGN);
  if (lim >= 0) {
    struct rlimit l { (rlim_t) lim, old.rlim_max };
    setrlimit (RLIMIT_FSIZE, &l);
  }
  const int ret = f ();
  setrlimit (RLIMIT_FSIZE, &old);
  fflush (stdout);
  fflush (stderr);
  signal (SIGXFSZ, oldsig);
  dup2 (so, 1);
  dup2 (se, 2);
  close (so);
  close (se);
  close (nul);
  return ret;
}
static std::string
random_name (Rng &r, size_t max)
{
  static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.";
  std::string s = "f";
  const size_t n = r.chance (0.05) ? max : 1 + r.below (12);
  while (s.size () < n)
    s += al[r.below (sizeof al - 1)];
  return s;
}
static double
random_value (Rng &r)
{
  const double k = r.unit ();
  if (k < 0.1)
    return 0;
  if (k < 0.2)
    return (double) r.range (-5, 5);
  if (k < 0.3)
    return ldexp (r.uniform (-1, 1), (int) r.range (-200, 200));
  return r.uniform (-1e3, 1e3);
}
static void
write_forest (World &w, const GWorld &G, i64 k)
{
  if (!snap_sane (w.S))
    return;
  snap_elements (w.S);
  Rng &r = w.r;
  Expect E;
  E.tree = r.chance (0.6), E.rank = r.chance (0.6), E.level = r.chance (0.6), E.id = r.chance (0.6);
  E.pieces = w.P;
  bool ghosts = r.chance (0.5);
  const int api = (int) r.below (3);
  const int nf = api == 0 ? 0 : r.chance (0.4) ? 0 : (int) r.range (1, 3);
  const int ns = (int) r.below (nf + 1);
  for (int i = 0; i < nf; ++i) {
    Field f;
    do
      f.name = random_name (r, 60);
    while (std::any_of (E.fields.begin (), E.fields.end (), [&] (const Field &x) { return x.name == f.name; }));
    f.comp = i < ns ? 1 : 3;
    E.fields.push_back (f);
  }
  if (api == 0) { /* the short form: the four built-in fields, no ghosts */
    E.tree = E.rank = E.level = E.id = true;
    ghosts = false;
  }
  /* what has to be in my file */
  std::vector<Cell> cells;
  for (i64 i = w.S.off[w.me]; i < w.S.off[w.me + 1]; ++i) {
    Cell c;
    c.tree = w.S.g[i].t;
    c.level = w.S.g[i].l;
    c.id = i;
    corners (w, G, w.S.geo[i], w.S.g[i].t, c);
    cells.push_back (c);
  }
  const size_t nl = cells.size ();
  size_t ng = 0;
  if (w.ghost && t8_forest_get_num_ghosts (w.f) > 0)
    for (t8_locidx_t gt = 0; gt < t8_forest_get_num_ghost_trees (w.f); ++gt) {
      const t8_eclass_t ec = t8_forest_ghost_get_tree_class (w.f, gt);
      const int t = (int) t8_forest_ghost_get_global_treeid (w.f, gt);
      for (t8_locidx_t e = 0; e < t8_forest_ghost_tree_num_leaf_elements (w.f, gt); ++e) {
        const t8_element_t *el = t8_forest_ghost_get_leaf_element (w.f, gt, e);
        Cell c;
        corners (w, G, geo_of (w.s, ec, el, FK), t, c);
        c.level = w.s->element_get_level (ec, el);
        cells.push_back (c);
        ++ng;
      }
    }
  /* user data for all local elements and ghosts, exactly as long as needed */
  std::vector<std::vector<double>> store;
  std::vector<t8_vtk_data_field_t> fields (nf);
  for (int i = 0; i < nf; ++i) {
    store.emplace_back ();
    for (Cell &c : cells) {
      c.data.emplace_back ();
      for (int d = 0; d < E.fields[i].comp; ++d) {
        c.data.back ().push_back (random_value (w.mine));
        store.back ().push_back (c.data.back ().back ());
      }
    }
    store.back ().shrink_to_fit ();
  }
  if (!ghosts)
    for (int i = 0; i < nf; ++i)
      store[i].resize (nl * E.fields[i].comp), store[i].shrink_to_fit ();
  for (int i = 0; i < nf; ++i) {
    memset (&fields[i], 0, sizeof fields[i]);
    fields[i].type = E.fields[i].comp == 1 ? T8_VTK_SCALAR : T8_VTK_VECTOR;
    snprintf (fields[i].description, sizeof fields[i].description, "%s", E.fields[i].name.c_str ());
    fields[i].data = store[i].empty () ? nullptr : store[i].data ();
  }
  if (!ghosts)
    cells.resize (nl);
  const std::string base = random_name (r, 40), prefix = dir + "/" + base;
  wipe ();
  w_ctx (w, fmt ("write(api %d, ghosts %d, %d scalars %d vectors, flags %d%d%d%d)", api, ghosts, ns, nf - ns, E.tree, E.rank, E.level, E.id).c_str ());
  auto run = [&] (const std::string &pre) {
    switch (api) {
    case 0:
      return t8_forest_write_vtk (w.f, pre.c_str ());
    case 1:
      return t8_forest_write_vtk_ext (w.f, pre.c_str (), E.tree, E.rank, E.level, E.id, ghosts, 0, 1, nf, nf ? fields.data () : nullptr);
    default:
      return t8_forest_vtk_write_file (w.f, pre.c_str (), E.tree, E.rank, E.level, E.id, ghosts, nf, nf ? fields.data () : nullptr);
    }
  };
  const u64 before = w.S.hash (true);
  int ret = run (prefix);
  VF_CHECK (ret != 0, "write-failed", "writing %s failed", prefix.c_str ());
  check_listing (base, w.P, w.me);
  if (any_violation ())
    return;
  Arrays cd, pd;
  size_t bytes = 0;
  check_vtu (fmt ("%s_%04d.vtu", prefix.c_str (), w.me), cells, E, G.size, w.me, cd, pd, bytes);
  if (any_violation ())
    return;
  if (w.me == 0)
    check_pvtu (prefix, E, cd, pd);
  if (any_violation ())
    return;
  count ("forests_written");
  if (ghosts && ng)
    count ("ghost_cells", (i64) ng);
  if (nf)
    count ("with_user_data");
  if (nf && ns == 0)
    count ("only_vectors");
  seen ("outputs", comb (comb (before, E.tree | E.rank << 1 | E.level << 2 | E.id << 3 | ghosts << 4), comb (ns, nf)));
  /* the same again with a disk that fails on some of the processes */
  if (r.chance (0.5)) {
    const std::string b2 = base + "F", p2 = dir + "/" + b2;
    const bool fail = r.below (w.P) == (u64) w.me || w.mine.chance (0.3);
    const int how = fail ? (int) w.mine.range (1, 2) : 0;
    i64 lim = -1;
    if (how == 1) {
      if (symlink ("/dev/full", fmt ("%s_%04d.vtu", p2.c_str (), w.me).c_str ()))
        return;
    }
    else if (how == 2) {
      /* the master file must still fit in for this to be the piece's failure */
      lim = (i64) w.mine.below (bytes);
      if (w.me == 0) {
        struct stat sb;
        if (stat ((prefix + ".pvtu").c_str (), &sb) == 0 && w.mine.chance (0.7) && sb.st_size + 64 < (i64) bytes)
          lim = sb.st_size + 64 + (i64) w.mine.below (bytes - sb.st_size - 64);
      }
    }
    ret = limited (lim, [&] { return run (p2); });
    if (fail)
      VF_CHECK (ret == 0, "failure-unreported", "the write of %s failed (%s, %lld of %zu bytes possible) but success was reported", p2.c_str (), how == 1 ? "device full" : "file size limit",
                (long long) lim, bytes);
    else
      VF_CHECK (ret != 0, "write-failed", "writing %s failed on a process without faults", p2.c_str ());
    count (fail ? "faults_injected" : "fault_bystanders");
    if (how == 2)
      seen ("crash_points", comb (bytes, lim));
    if (any_violation ())
      return;
    if (!fail) {
      Arrays c2, d2;
      size_t by = 0;
      check_vtu (fmt ("%s_%04d.vtu", p2.c_str (), w.me), cells, E, G.size, w.me, c2, d2, by);
    }
    if (any_violation ())
      return;
  }
  if (r.chance (0.15)) {
    ret = limited (-1, [&] { return run (dir + "/nodir/" + base); });
    VF_CHECK (ret == 0, "failure-unreported", "writing into a directory that does not exist reported success");
    count ("bad_directories");
  }
  (void) k;
}
static void
write_cmesh (Rng &r, i64 k)
{
  const int before = held_blocks ();
  GWorld G;
  FMesh m = geo_mesh (r, 0, G);
  Rng mine (comb (r.next (), st ().rank));
  const bool part = r.chance (0.6);
  const std::string what = fmt ("case %lld seed %llu cmesh %s %d trees %s", (long long) k, (unsigned long long) st ().seed, m.kind.c_str (), m.n (), part ? "partitioned" : "replicated");
  ctx ("%s", what.c_str ());
  AttrKeep keep;
  t8_cmesh_t c = fm_commit (m, r, mine, keep, part, st ().comm);
  if (part && r.chance (0.5)) { /* another distribution */
    Part p = part_random (r, m.n (), st ().size);
    t8_cmesh_t d;
    t8_cmesh_init (&d);
    t8_cmesh_set_derive (d, c);
    t8_shmem_init (st ().comm);
    t8_shmem_set_type (st ().comm, T8_SHMEM_BEST_TYPE);
    t8_shmem_array_t o = t8_cmesh_alloc_offsets (st ().size, st ().comm);
    if (t8_shmem_array_start_writing (o))
      for (int q = 0; q <= st ().size; ++q)
        t8_shmem_array_set_gloidx (o, q, p.off[q]);
    t8_shmem_array_end_writing (o);
    t8_cmesh_set_partition_offsets (d, o);
    t8_cmesh_commit (d, st ().comm);
    c = d;
  }
  Expect E;
  E.cmesh = true;
  E.pieces = part ? st ().size : 1;
  std::vector<Cell> cells;
  auto add = [&] (i64 gt, bool ghost) {
    Cell x;
    x.shape = m.m.cls[gt];
    x.tree = ghost ? -1 : gt;
    for (int i = 0; i < S_NV[x.shape]; ++i)
      x.p.push_back (vtx (&G.v[gt][0], i));
    cells.push_back (x);
  };
  for (t8_locidx_t t = 0; t < t8_cmesh_get_num_local_trees (c); ++t)
    add (t8_cmesh_get_global_id (c, t), false);
  const size_t nl = cells.size ();
  for (t8_locidx_t t = 0; t < t8_cmesh_get_num_ghosts (c); ++t)
    add (t8_cmesh_get_global_id (c, t8_cmesh_get_num_local_trees (c) + t), true);
  const std::string base = random_name (r, 40), prefix = dir + "/" + base;
  wipe ();
  int ret = t8_cmesh_vtk_write_file (c, prefix.c_str ());
  VF_CHECK (ret != 0, "write-failed", "writing %s failed", prefix.c_str ());
  check_listing (base, E.pieces, st ().rank);
  if (any_violation ())
    return;
  size_t bytes = 0;
  Arrays cd, pd;
  if (part || st ().rank == 0)
    check_vtu (fmt ("%s_%04d.vtu", prefix.c_str (), st ().rank), cells, E, G.size, st ().rank, cd, pd, bytes);
  if (any_violation ())
    return;
  if (st ().rank == 0)
    check_pvtu (prefix, E, cd, pd);
  if (any_violation ())
    return;
  count ("cmeshes_written");
  if (cells.size () > nl)
    count ("ghost_trees", (i64) (cells.size () - nl));
  seen ("outputs", comb (hash_str (what), cells.size ()));
  if (r.chance (0.4)) {
    const std::string p2 = prefix + "F";
    const bool fail = (part || st ().rank == 0) && mine.chance (0.6);
    const int how = fail ? (int) mine.range (1, 2) : 0;
    i64 lim = -1;
    if (how == 1 && symlink ("/dev/full", fmt ("%s_%04d.vtu", p2.c_str (), st ().rank).c_str ()))
      return;
    if (how == 2) {
      lim = (i64) mine.below (bytes);
      struct stat sb;
      if (st ().rank == 0) { /* a master file that cannot be written aborts by design */
        if (stat ((prefix + ".pvtu").c_str (), &sb) || sb.st_size + 64 >= (i64) bytes)
          lim = -1;
        else
          lim = sb.st_size + 64 + (i64) mine.below (bytes - sb.st_size - 64);
      }
    }
    const bool really = fail && (how == 1 || lim >= 0);
    ret = limited (lim, [&] { return t8_cmesh_vtk_write_file (c, p2.c_str ()); });
    if (really)
      VF_CHECK (ret == 0, "cmesh-failure-unreported", "the write of %s failed (%s, %lld of %zu bytes possible) but success was reported", p2.c_str (),
                how == 1 ? "device full" : "file size limit", (long long) lim, bytes);
    else
      VF_CHECK (ret != 0, "write-failed", "writing %s failed on a process without faults", p2.c_str ());
    count (really ? "faults_injected" : "fault_bystanders");
    if (any_violation ())
      return;
  }
  t8_cmesh_unref (&c);
  VF_CHECK (held_blocks () == before, "leak", "%d blocks held, %d before", held_blocks (), before);
}
static void
write_forests (u64 seed, i64 k)
{
  const int before = held_blocks ();
  World w (seed, st ().comm);
  GWorld G;
  const int scheme = w.r.chance (0.7) ? 0 : 1;
  w.limit = 400;
  w.make_mesh = [&] (Rng &r) { return geo_mesh (r, scheme, G); };
  w_start (w, scheme, 4);
  w.hist = fmt ("case %lld seed %llu ", (long long) k, (unsigned long long) st ().seed) + w.hist;
  ctx ("%s", w.hist.c_str ());
  const int nops = w.r.range (1, 4);
  for (int i = 0; i < nops && !any_violation (); ++i) {
    OpSpec o = random_op (w);
    t8_forest_t old = do_op (w, o, false);
    if (old)
      t8_forest_unref (&old);
    if (any_violation ())
      return;
    if (w.S.n () <= 4 * w.limit && w.r.chance (0.7))
      write_forest (w, G, k);
    seen ("states", w.S.hash (false));
    if (w.S.n () > 6 * w.limit)
      break;
  }
  if (any_violation ())
    return;
  if (k < 3)
    sample (w.hist.substr (0, 400));
  w_end (w);
  VF_CHECK (held_blocks () == before, "leak", "%d blocks held, %d before", held_blocks (), before);
}

int
main (int argc, char **argv)
{
  init (argc, argv);
  char tmpl[1024] = "";
  if (st ().rank == 0) {
    snprintf (tmpl, sizeof tmpl, "%s/vfvtk.XXXXXX", st ().workdir.c_str ());
    if (!mkdtemp (tmpl))
      return 3;
  }
  MPI_Bcast (tmpl, sizeof tmpl, MPI_CHAR, 0, MPI_COMM_WORLD);
  dir = tmpl;
  const i64 n = (i64) (opt_int ("n", 40) * st ().scale);
  Rng r (comb (st ().seed, 2929));
  for (i64 k = 0; k < n; ++k) {
    const u64 s = r.next ();
    if (st ().only_case >= 0 && st ().only_case != k)
      continue;
    Rng q (s);
    if (k % 3 == 2)
      write_cmesh (q, k);
    else
      write_forests (comb (s, 5), k);
    if (any_violation ())
      break;
  }
  wipe ();
  if (st ().rank == 0)
    rmdir (dir.c_str ());
  return finish ();
}
