/* Shared monitor runtime of all harness programs: deterministic PRNG, violation reporting, event
 * counters, distinct-state sets, samples, quiescent-point memory accounting, crash context. */
#ifndef VERIF_COMMON_HXX
#define VERIF_COMMON_HXX

#include <sanitizer/lsan_interface.h>
#include <t8.h>
#include <sc.h>
#include <mpi.h>
#include <algorithm>
#include <array>
#include <memory>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
#include <execinfo.h>

namespace vf
{
typedef uint64_t u64;
typedef int64_t i64;

inline u64
mix (u64 z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline u64
comb (u64 a, u64 b)
{
  return mix (a ^ (mix (b) + 0x632be59bd9b4e019ULL + (a << 6) + (a >> 2)));
}
inline u64
hash_bytes (const void *p, size_t n, u64 h = 1469598103934665603ULL)
{
  const unsigned char *c = (const unsigned char *) p;
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ULL;
  }
  return h;
}
inline u64
hash_str (const std::string &s)
{
  return hash_bytes (s.data (), s.size ());
}

struct Rng
{
  u64 s;
  explicit Rng (u64 seed = 1): s (mix (seed))
  {
  }
  u64
  next ()
  {
    s += 0x9e3779b97f4a7c15ULL;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  u64
  below (u64 n)
  {
    return n == 0 ? 0 : next () % n;
  }
  int
  range (int a, int b)
  {
    return a + (int) below ((u64) (b - a + 1));
  }
  double
  unit ()
  {
    return (next () >> 11) * (1.0 / 9007199254740992.0);
  }
  double
  uniform (double a, double b)
  {
    return a + (b - a) * unit ();
  }
  bool
  chance (double p)
  {
    return unit () < p;
  }
  template <class T>
  const T &
  pick (const std::vector<T> &v)
  {
    return v[below (v.size ())];
  }
};

struct State
{
  int rank = 0, size = 1;
  sc_MPI_Comm comm = sc_MPI_COMM_WORLD;
  std::string prop, workdir = ".", jobname = "job";
  u64 seed = 1;
  int tier = 0; /* 0 quick, 1 thorough */
  double scale = 1.0;
  i64 only_case = -1;
  std::map<std::string, std::string> opt;
  char ctx[4096] = "";
  i64 nviol = 0;
  i64 foreign = 0; /* a rule of another property broke */
  std::map<std::string, int> viol_per_key;
  std::map<std::string, u64> counts;
  std::map<std::string, std::unordered_set<u64>> distinct;
  std::vector<std::string> samples;
};
inline State &
st ()
{
  static State s;
  return s;
}

inline void
put (const char *s)
{
  size_t n = strlen (s);
  while (n > 0) {
    ssize_t w = ::write (1, s, n);
    if (w <= 0)
      break;
    s += w;
    n -= (size_t) w;
  }
}

/* Describe what is going on; shown with every violation and on every crash. */
inline int &
stall_limit ();
/* there was progress: the process gets another stall_limit seconds */
inline void
progress ()
{
  static time_t last = 0;
  struct timespec t;
  clock_gettime (CLOCK_MONOTONIC_COARSE, &t);
  if (stall_limit () && t.tv_sec != last) {
    last = t.tv_sec;
    alarm ((unsigned) stall_limit ());
  }
}
inline void
ctx (const char *fmt, ...)
{
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (st ().ctx, sizeof (st ().ctx), fmt, ap);
  va_end (ap);
  progress ();
}
inline std::string
fmt (const char *f, ...)
{
  char buf[8192];
  va_list ap;
  va_start (ap, f);
  vsnprintf (buf, sizeof (buf), f, ap);
  va_end (ap);
  return buf;
}

/* MPI interposition (pmpi.cxx), where linked */
extern void
mpi_watch (int mode, u64 seed) __attribute__ ((weak));
extern void
mpi_quiet (const char *where) __attribute__ ((weak));

/* A monitor fired.  key: stable name of the broken rule. */
inline void
viol (const char *key, const char *f, ...)
{
  State &s = st ();
  if ((s.prop == "C18" && strncmp (key, "mpi-", 4)) || ((s.prop == "C17" || s.opt.count ("memory-only")) && strncmp (key, "life", 4) && strncmp (key, "leak", 4))) {
    /* the workload of another property broke: stop, but it is not about communication / memory */
    s.foreign = 1;
    return;
  }
  ++s.nviol;
  if (++s.viol_per_key[key] > (st ().opt.count ("all") ? 1000 : 3))
    return;
  char buf[6000], out[12000];
  va_list ap;
  va_start (ap, f);
  vsnprintf (buf, sizeof (buf), f, ap);
  va_end (ap);
  snprintf (out, sizeof (out), "VIOL key=%s rank=%d/%d case={%s} :: %s\n", key, s.rank, s.size, s.ctx, buf);
  put (out);
}
#define VF_CHECK(cond, key, ...) \
  do { \
    if (!(cond)) \
      vf::viol (key, __VA_ARGS__); \
  } while (0)

inline void
count (const char *name, u64 n = 1)
{
  progress ();
  st ().counts[name] += n;
}
inline void
seen (const char *name, u64 h)
{
  st ().distinct[name].insert (h);
}
inline void
sample (const std::string &s)
{
  if (st ().samples.size () < 4)
    st ().samples.push_back (s);
}
inline std::string
json_escape (const std::string &s)
{
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    }
    else if ((unsigned char) c < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}

/* A process that makes no step for this many seconds hangs (SIGALRM, same report as SIGTERM). */
inline int &
stall_limit ()
{
  static int s = 0;
  return s;
}
inline void
crash_handler (int sig)
{
  char buf[4600];
  snprintf (buf, sizeof (buf), "\nCRASH sig=%d rank=%d/%d case={%s}\n", sig, st ().rank, st ().size, st ().ctx);
  put (buf);
  void *bt[40];
  int n = backtrace (bt, 40);
  backtrace_symbols_fd (bt, n, 1);
  signal (sig, SIG_DFL);
  _exit (86);
}

inline void
term_handler (int)
{
  char buf[4600];
  snprintf (buf, sizeof (buf), "\nHANG rank=%d/%d case={%s}\n", st ().rank, st ().size, st ().ctx);
  put (buf);
  void *bt[40];
  int n = backtrace (bt, 40);
  backtrace_symbols_fd (bt, n, 1);
  _exit (87);
}

inline bool
has_opt (const char *k)
{
  return st ().opt.count (k) > 0;
}
inline std::string
opt (const char *k, const char *dflt = "")
{
  auto it = st ().opt.find (k);
  return it == st ().opt.end () ? std::string (dflt) : it->second;
}
inline i64
opt_int (const char *k, i64 dflt)
{
  auto it = st ().opt.find (k);
  return it == st ().opt.end () ? dflt : atoll (it->second.c_str ());
}

/* Global any-rank violation test: a collective quiescent point. */
inline bool
any_violation ()
{
  if (mpi_quiet)
    mpi_quiet ("operation");
  i64 v = st ().nviol + st ().foreign, g = 0;
  PMPI_Allreduce (&v, &g, 1, MPI_INT64_T, MPI_SUM, st ().comm);
  return g > 0;
}

inline void
log_nothing (FILE *, const char *, int, int, int, int, const char *)
{
}

inline void
init (int argc, char **argv)
{
  State &s = st ();
  MPI_Init (&argc, &argv);
  MPI_Comm_rank (MPI_COMM_WORLD, &s.rank);
  MPI_Comm_size (MPI_COMM_WORLD, &s.size);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind ("--", 0) == 0) {
      size_t eq = a.find ('=');
      if (eq == std::string::npos)
        s.opt[a.substr (2)] = "1";
      else
        s.opt[a.substr (2, eq - 2)] = a.substr (eq + 1);
    }
  }
  s.seed = (u64) opt_int ("seed", 1);
  s.tier = opt ("tier", "quick") == "thorough";
  s.prop = opt ("prop", "C00");
  s.workdir = opt ("workdir", ".");
  s.jobname = opt ("job", "job");
  s.scale = atof (opt ("scale", "1").c_str ());
  s.only_case = opt_int ("case", -1);
  sc_set_abort_handler ([] () { crash_handler (SIGABRT); });
  /* quiet logging, no signal catching by libsc, abort on errors */
  sc_init (MPI_COMM_WORLD, 0, 0, NULL, SC_LP_ERROR);
  t8_init (SC_LP_ERROR);
  signal (SIGABRT, crash_handler);
  signal (SIGSEGV, crash_handler);
  signal (SIGFPE, crash_handler);
  signal (SIGILL, crash_handler);
  signal (SIGBUS, crash_handler);
  signal (SIGTERM, term_handler);
  stall_limit () = (int) opt_int ("stall", 0);
  if (stall_limit () > 0)
    signal (SIGALRM, term_handler);
  progress ();
  if (has_opt ("mpi") && mpi_watch)
    mpi_watch ((int) opt_int ("mpi", 0), s.seed);
}

/* Leak detection at the end of a run, in a child process (it may not be possible, and then ends the
 * process): memory from which no pointer leads back is reported when t8code allocated it. */
inline void
lost_memory ()
{
#ifdef __SANITIZE_ADDRESS__
  int fd[2];
  if (pipe (fd))
    return;
  const pid_t child = fork ();
  if (child < 0)
    return;
  if (child == 0) {
    close (fd[0]);
    dup2 (fd[1], 2);
    dup2 (fd[1], 1);
    signal (SIGABRT, SIG_DFL);
    const int r = __lsan_do_recoverable_leak_check ();
    dprintf (fd[1], "\nSCAN %d\n", r);
    _exit (0);
  }
  close (fd[1]);
  std::string out;
  char buf[65536];
  ssize_t n;
  while ((n = read (fd[0], buf, sizeof buf)) > 0)
    if (out.size () < (64u << 20))
      out.append (buf, (size_t) n);
  close (fd[0]);
  int status;
  waitpid (child, &status, 0);
  if (out.find ("\nSCAN ") == std::string::npos || out.find ("LeakSanitizer has encountered a fatal error") != std::string::npos) {
    count ("leak_scans_unavailable");
    return;
  }
  count ("leak_scans");
  if (has_opt ("lsan-show"))
    put (out.c_str ());
  size_t p = 0;
  while ((p = out.find ("irect leak of ", p)) != std::string::npos) {
    const size_t e = std::min (out.find ("\n\n", p), out.size ());
    const std::string blk = out.substr (p, e - p);
    p = e;
    /* who asked for it: the first frame above the allocator and containers */
    std::string who, frames;
    size_t q = std::min (blk.find ('\n'), blk.size ()), k = 0;
    while (k < 8 && (q = blk.find (" in ", q)) != std::string::npos) {
      const size_t z = std::min (blk.find ('\n', q), blk.size ());
      const std::string fr = blk.substr (q + 4, z - q - 4);
      q = z;
      if (fr.find ("libsanitizer") != std::string::npos || fr.find ("libsc") != std::string::npos || fr.find ("/include/c++") != std::string::npos
          || fr.find ("libstdc++") != std::string::npos)
        continue;
      if (k == 0)
        who = fr;
      frames += (k ? " < " : "") + fr.substr (0, 160);
      ++k;
    }
    if (who.find ("/repo/") != std::string::npos || who.rfind ("t8_", 0) == 0)
      viol ("leak-lost", "%s allocated in %s", blk.substr (0, blk.find ('\n')).c_str (), frames.c_str ());
    else if (frames.find ("/repo/") != std::string::npos)
      count ("leaks_elsewhere");
  }
#endif
}

inline int
finish (bool check_memory = true)
{
  alarm (0);
  State &s = st ();
  any_violation ();
  i64 nv = s.nviol, gv = 0;
  PMPI_Allreduce (&nv, &gv, 1, MPI_INT64_T, MPI_SUM, s.comm);
  bool bad = gv > 0;
  i64 fv = s.foreign, gf = 0;
  PMPI_Allreduce (&fv, &gf, 1, MPI_INT64_T, MPI_SUM, s.comm);
  if (s.foreign)
    count ("foreign");
  /* distinct sets: one file per rank, merged by the runner */
  for (auto &kv : s.distinct) {
    std::string fn = s.workdir + "/distinct." + s.jobname + "." + std::to_string (s.rank) + "." + kv.first + ".bin";
    FILE *f = fopen (fn.c_str (), "wb");
    if (f) {
      std::vector<u64> v (kv.second.begin (), kv.second.end ());
      if (!v.empty ())
        (void) !fwrite (v.data (), 8, v.size (), f);
      fclose (f);
    }
  }
  std::string j = "STATS {\"rank\":" + std::to_string (s.rank) + ",\"counts\":{";
  bool first = true;
  for (auto &kv : s.counts) {
    j += (first ? "\"" : ",\"") + kv.first + "\":" + std::to_string (kv.second);
    first = false;
  }
  j += "},\"samples\":[";
  first = true;
  if (s.rank == 0)
    for (auto &x : s.samples) {
      j += (first ? "\"" : ",\"") + json_escape (x) + "\"";
      first = false;
    }
  j += "]}\n";
  put (j.c_str ());
  if (!bad && !gf && check_memory) {
    snprintf (s.ctx, sizeof s.ctx, "end of run: sc_finalize memory balance");
    sc_finalize (); /* aborts when any package leaks or a reference is pending */
  }
  if (!bad && !gf && has_opt ("lsan")) {
    lost_memory ();
    nv = s.nviol;
    gv = 0;
    PMPI_Allreduce (&nv, &gv, 1, MPI_INT64_T, MPI_SUM, s.comm);
    bad = gv > 0;
    put (fmt ("STATS {\"rank\":%d,\"counts\":{\"leak_scans\":%d,\"leak_scans_unavailable\":%d},\"samples\":[]}\n", s.rank, (int) s.counts["leak_scans"],
              (int) s.counts["leak_scans_unavailable"])
           .c_str ());
  }
  if (bad) {
    put ("END bad\n");
    fflush (NULL);
    _exit (1);
  }
  PMPI_Barrier (s.comm);
  put ("END ok\n");
  MPI_Finalize ();
  fflush (NULL);
  _exit (0);
}

/* allocations currently held by t8code through libsc's accounting (quiescent-point leak monitor) */
inline int
held_blocks ()
{
  return sc_memory_status (t8_get_package_id ());
}

}  // namespace vf
#endif
