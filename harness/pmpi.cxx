#include "pmpi.hxx"
#include <mutex>
#include <time.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void *
__asan_region_is_poisoned (void *, size_t);
#endif
namespace vf
{
struct Req
{
  int kind; /* 0 send, 1 receive */
  MPI_Comm comm;
  int peer, tag;
  const void *buf;
  size_t bytes;
  u64 sum;
  bool plain;
};
struct PM
{
  int mode = 0;
  Rng r { 1 };
  std::map<MPI_Request, Req> req;
  std::map<std::array<int, 2>, i64> sent, got; /* (world peer, tag) */
  std::map<std::array<int, 2>, i64> sentb, gotb;
  std::vector<std::string> coll;
  std::set<MPI_Comm> dups;
  u64 sched = 0; /* order in which messages were taken */
};
static PM &
pm ()
{
  static PM p;
  return p;
}
static bool
on (int m)
{
  return (pm ().mode & m) != 0;
}
static int
world_rank (MPI_Comm c, int r)
{
  MPI_Group g, w;
  int out = MPI_UNDEFINED;
  PMPI_Comm_group (c, &g);
  PMPI_Comm_group (MPI_COMM_WORLD, &w);
  PMPI_Group_translate_ranks (g, 1, &r, w, &out);
  PMPI_Group_free (&g);
  PMPI_Group_free (&w);
  return out;
}
static void
nap ()
{
  PM &p = pm ();
  if (!on (MPI_DELAY))
    return;
  const double u = p.r.unit ();
  if (u < 0.75)
    return;
  long ns = u < 0.95 ? (long) p.r.below (30000) : u < 0.995 ? (long) p.r.below (400000) : (long) p.r.below (5000000);
  timespec t { 0, ns };
  nanosleep (&t, nullptr);
  count ("delays");
}
static size_t
bytes_of (int n, MPI_Datatype t)
{
  int s = 0;
  PMPI_Type_size (t, &s);
  return (size_t) s * (size_t) n;
}
static bool
plain (MPI_Datatype t, int &size)
{
  MPI_Aint lb, ex;
  PMPI_Type_size (t, &size);
  PMPI_Type_get_extent (t, &lb, &ex);
  return lb == 0 && ex == size;
}
static bool
readable (const void *b, size_t n)
{
#if defined(__SANITIZE_ADDRESS__)
  return n == 0 || __asan_region_is_poisoned ((void *) b, n) == nullptr;
#else
  return true;
#endif
}
static u64
checksum (const void *b, size_t n)
{
  u64 h = mix (n);
  const unsigned char *p = (const unsigned char *) b;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    u64 w;
    memcpy (&w, p + i, 8);
    h = (h ^ w) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
  }
  for (; i < n; ++i)
    h = (h ^ p[i]) * 0x9E3779B97F4A7C15ull;
  return h;
}
static void
add_req (MPI_Request r, int kind, MPI_Comm c, int peer, int tag, const void *b, int n, MPI_Datatype t)
{
  if (r == MPI_REQUEST_NULL || !on (MPI_WATCH))
    return;
  Req q;
  q.kind = kind;
  q.comm = c;
  q.peer = peer;
  q.tag = tag;
  q.buf = b;
  q.bytes = bytes_of (n, t);
  int s;
  q.plain = plain (t, s);
  q.sum = 0;
  if (kind == 0 && q.plain) {
    if (!readable (b, q.bytes))
      viol ("mpi-send-buffer", "send of %zu bytes from memory that is not valid", q.bytes);
    else
      q.sum = checksum (b, q.bytes);
  }
  pm ().req[r] = q;
  count (kind == 0 ? "isends" : "irecvs");
}
static void
note_sent (MPI_Comm c, int peer, int tag, size_t bytes)
{
  if (!on (MPI_WATCH) || peer == MPI_PROC_NULL)
    return;
  std::array<int, 2> k { world_rank (c, peer), tag };
  pm ().sent[k]++;
  pm ().sentb[k] += bytes;
  count ("sends");
  count ("send_bytes", bytes);
}
static void
note_got (MPI_Comm c, int peer, int tag, size_t bytes)
{
  if (!on (MPI_WATCH) || peer == MPI_PROC_NULL || peer < 0)
    return;
  std::array<int, 2> k { world_rank (c, peer), tag };
  pm ().got[k]++;
  pm ().sched = comb (pm ().sched, comb (k[0] * 7919 + k[1], bytes));
  pm ().gotb[k] += bytes;
  count ("receives");
}
/* before the library learns that the request is complete */
static bool
take_req (MPI_Request r, Req &q)
{
  auto it = pm ().req.find (r);
  if (it == pm ().req.end ())
    return false;
  q = it->second;
  if (q.kind == 0 && q.plain) {
    if (!readable (q.buf, q.bytes))
      viol ("mpi-send-buffer", "the buffer of a pending send (%zu bytes, tag %d) was released before it completed", q.bytes, q.tag);
    else if (checksum (q.buf, q.bytes) != q.sum)
      viol ("mpi-send-buffer", "the buffer of a pending send (%zu bytes, tag %d) was changed before it completed", q.bytes, q.tag);
  }
  return true;
}
static void
done_req (const Req &q, const MPI_Status &s)
{
  if (q.kind == 1) {
    int n = 0;
    PMPI_Get_count (&s, MPI_BYTE, &n);
    note_got (q.comm, s.MPI_SOURCE, s.MPI_TAG, n == MPI_UNDEFINED ? 0 : n);
  }
}
static void
note_coll (const char *name, MPI_Comm c, size_t bytes, int root)
{
  if (!on (MPI_WATCH))
    return;
  int n = 0;
  PMPI_Comm_size (c, &n);
  if (n != st ().size)
    return;
  count ("collectives");
  pm ().coll.push_back (fmt ("%s/%zu/%d", name, bytes, root));
}
void
mpi_watch (int mode, u64 seed)
{
  pm ().mode = mode;
  pm ().r = Rng (comb (seed, 991 + st ().rank));
}
int
mpi_dups ()
{
  return (int) pm ().dups.size ();
}
void
mpi_quiet (const char *where)
{
  PM &p = pm ();
  if (!on (MPI_WATCH))
    return;
  count ("quiet_points");
  for (auto &kv : p.req)
    viol ("mpi-pending", "%s: a %s of %zu bytes (rank %d, tag %d) was never completed", where, kv.second.kind == 0 ? "send" : "receive", kv.second.bytes, kv.second.peer,
          kv.second.tag);
  p.req.clear ();
  /* what was sent must have arrived: every pair of processes, every tag */
  const int P = st ().size, me = st ().rank;
  auto pack = [&] (std::map<std::array<int, 2>, i64> &a, std::map<std::array<int, 2>, i64> &b) {
    std::vector<i64> v;
    for (auto &kv : a) {
      v.push_back (kv.first[0]);
      v.push_back (kv.first[1]);
      v.push_back (kv.second);
      v.push_back (b[kv.first]);
    }
    return v;
  };
  auto gather = [&] (std::vector<i64> v) {
    int n = (int) v.size ();
    std::vector<int> cnt (P), dis (P, 0);
    PMPI_Allgather (&n, 1, MPI_INT, cnt.data (), 1, MPI_INT, st ().comm);
    for (int i = 1; i < P; ++i)
      dis[i] = dis[i - 1] + cnt[i - 1];
    std::vector<i64> all (dis[P - 1] + cnt[P - 1] + 1);
    PMPI_Allgatherv (v.data (), n, MPI_INT64_T, all.data (), cnt.data (), dis.data (), MPI_INT64_T, st ().comm);
    std::vector<std::vector<i64>> out (P);
    for (int i = 0; i < P; ++i)
      out[i].assign (all.begin () + dis[i], all.begin () + dis[i] + cnt[i]);
    return out;
  };
  auto S = gather (pack (p.sent, p.sentb)), G = gather (pack (p.got, p.gotb));
  std::map<std::array<i64, 3>, std::array<i64, 4>> m; /* (from, to, tag) */
  for (int q = 0; q < P; ++q) {
    for (size_t i = 0; i + 3 < S[q].size (); i += 4) {
      auto &x = m[{ q, S[q][i], S[q][i + 1] }];
      x[0] += S[q][i + 2];
      x[1] += S[q][i + 3];
    }
    for (size_t i = 0; i + 3 < G[q].size (); i += 4) {
      auto &x = m[{ G[q][i], q, G[q][i + 1] }];
      x[2] += G[q][i + 2];
      x[3] += G[q][i + 3];
    }
  }
  for (auto &kv : m)
    if (me == 0 && (kv.second[0] != kv.second[2] || kv.second[1] != kv.second[3]))
      viol ("mpi-unmatched", "%s: from process %lld to %lld with tag %lld: %lld messages (%lld bytes) sent, %lld (%lld bytes) received", where, (long long) kv.first[0],
            (long long) kv.first[1], (long long) kv.first[2], (long long) kv.second[0], (long long) kv.second[1], (long long) kv.second[2], (long long) kv.second[3]);
  if (me == 0)
    count ("channels", (i64) m.size ());
  p.sent.clear ();
  p.got.clear ();
  p.sentb.clear ();
  p.gotb.clear ();
  /* same collectives in the same order */
  u64 h = mix (p.coll.size ());
  for (auto &c : p.coll)
    h = comb (h, hash_str (c));
  std::vector<u64> hs (P);
  PMPI_Allgather (&h, 1, MPI_UINT64_T, hs.data (), 1, MPI_UINT64_T, st ().comm);
  if (hs[me] != hs[0]) {
    std::string s;
    for (size_t i = 0; i < p.coll.size () && i < 20; ++i)
      s += p.coll[i] + " ";
    viol ("mpi-collectives", "%s: other collective calls than process 0: %zu calls: %s", where, p.coll.size (), s.c_str ());
  }
  if (p.sched)
    seen ("schedules", p.sched);
  p.sched = 0;
  seen ("traces", comb (hs[0], m.size ()));
  p.coll.clear ();
}
}  // namespace vf
using namespace vf;
extern "C" {
int
MPI_Isend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
{
  nap ();
  int rc = on (MPI_SYNC) ? PMPI_Issend (b, n, t, d, tag, c, r) : PMPI_Isend (b, n, t, d, tag, c, r);
  note_sent (c, d, tag, bytes_of (n, t));
  add_req (*r, 0, c, d, tag, b, n, t);
  return rc;
}
int
MPI_Irecv (void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
{
  nap ();
  int rc = PMPI_Irecv (b, n, t, d, tag, c, r);
  add_req (*r, 1, c, d, tag, b, n, t);
  return rc;
}
int
MPI_Send (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
  nap ();
  note_sent (c, d, tag, bytes_of (n, t));
  return on (MPI_SYNC) ? PMPI_Ssend (b, n, t, d, tag, c) : PMPI_Send (b, n, t, d, tag, c);
}
static void
pick_source (int &src, int tag, MPI_Comm c)
{
  if (src != MPI_ANY_SOURCE || !on (MPI_SHUFFLE))
    return;
  MPI_Status s;
  PMPI_Probe (MPI_ANY_SOURCE, tag, c, &s);
  /* let others arrive, then take any of those that are there */
  timespec t { 0, (long) pm ().r.below (200000) };
  nanosleep (&t, nullptr);
  int n;
  PMPI_Comm_size (c, &n);
  std::vector<int> have;
  for (int q = 0; q < n; ++q) {
    int flag = 0;
    PMPI_Iprobe (q, tag, c, &flag, &s);
    if (flag)
      have.push_back (q);
  }
  if (!have.empty ()) {
    src = have[pm ().r.below (have.size ())];
    count ("wildcard_choices");
    if (have.size () > 1)
      count ("wildcard_shuffles");
  }
}
int
MPI_Recv (void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Status *s)
{
  nap ();
  pick_source (d, tag, c);
  MPI_Status x;
  int rc = PMPI_Recv (b, n, t, d, tag, c, &x);
  int got = 0;
  PMPI_Get_count (&x, MPI_BYTE, &got);
  note_got (c, x.MPI_SOURCE, x.MPI_TAG, got == MPI_UNDEFINED ? 0 : got);
  if (s != MPI_STATUS_IGNORE)
    *s = x;
  return rc;
}
int
MPI_Probe (int d, int tag, MPI_Comm c, MPI_Status *s)
{
  nap ();
  pick_source (d, tag, c);
  return PMPI_Probe (d, tag, c, s);
}
int
MPI_Iprobe (int d, int tag, MPI_Comm c, int *flag, MPI_Status *s)
{
  nap ();
  /* a message may always come later */
  if (on (MPI_DELAY) && pm ().r.chance (0.2)) {
    *flag = 0;
    return MPI_SUCCESS;
  }
  if (d == MPI_ANY_SOURCE && on (MPI_SHUFFLE)) {
    int n;
    PMPI_Comm_size (c, &n);
    const int o = (int) pm ().r.below (n);
    for (int i = 0; i < n; ++i) {
      int rc = PMPI_Iprobe ((i + o) % n, tag, c, flag, s);
      if (*flag)
        return rc;
    }
    return MPI_SUCCESS;
  }
  return PMPI_Iprobe (d, tag, c, flag, s);
}
int
MPI_Wait (MPI_Request *r, MPI_Status *s)
{
  nap ();
  Req q;
  const bool k = *r != MPI_REQUEST_NULL && take_req (*r, q);
  const MPI_Request h = *r;
  MPI_Status x;
  int rc = PMPI_Wait (r, &x);
  if (k) {
    pm ().req.erase (h);
    done_req (q, x);
  }
  if (s != MPI_STATUS_IGNORE)
    *s = x;
  return rc;
}
int
MPI_Waitall (int n, MPI_Request *r, MPI_Status *s)
{
  nap ();
  std::vector<Req> q (n);
  std::vector<char> k (n, 0);
  std::vector<MPI_Request> h (r, r + n);
  for (int i = 0; i < n; ++i)
    k[i] = r[i] != MPI_REQUEST_NULL && take_req (r[i], q[i]);
  std::vector<MPI_Status> x (n + 1);
  int rc = PMPI_Waitall (n, r, x.data ());
  for (int i = 0; i < n; ++i) {
    if (k[i]) {
      pm ().req.erase (h[i]);
      done_req (q[i], x[i]);
    }
    if (s != MPI_STATUSES_IGNORE)
      s[i] = x[i];
  }
  return rc;
}
int
MPI_Waitany (int n, MPI_Request *r, int *idx, MPI_Status *s)
{
  nap ();
  std::vector<MPI_Request> h (r, r + n);
  MPI_Status x;
  int rc = PMPI_Waitany (n, r, idx, &x);
  if (*idx != MPI_UNDEFINED) {
    Req q;
    if (take_req (h[*idx], q)) {
      pm ().req.erase (h[*idx]);
      done_req (q, x);
    }
  }
  if (s != MPI_STATUS_IGNORE)
    *s = x;
  return rc;
}
int
MPI_Waitsome (int n, MPI_Request *r, int *m, int *idx, MPI_Status *s)
{
  nap ();
  std::vector<MPI_Request> h (r, r + n);
  std::vector<MPI_Status> x (n + 1);
  int rc = PMPI_Waitsome (n, r, m, idx, x.data ());
  if (*m != MPI_UNDEFINED)
    for (int i = 0; i < *m; ++i) {
      Req q;
      if (take_req (h[idx[i]], q)) {
        pm ().req.erase (h[idx[i]]);
        done_req (q, x[i]);
      }
      if (s != MPI_STATUSES_IGNORE)
        s[i] = x[i];
    }
  return rc;
}
int
MPI_Test (MPI_Request *r, int *flag, MPI_Status *s)
{
  nap ();
  Req q;
  const MPI_Request h = *r;
  const bool k = h != MPI_REQUEST_NULL && take_req (h, q);
  MPI_Status x;
  int rc = PMPI_Test (r, flag, &x);
  if (*flag && k) {
    pm ().req.erase (h);
    done_req (q, x);
  }
  if (s != MPI_STATUS_IGNORE)
    *s = x;
  return rc;
}
int
MPI_Testall (int n, MPI_Request *r, int *flag, MPI_Status *s)
{
  nap ();
  std::vector<Req> q (n);
  std::vector<char> k (n, 0);
  std::vector<MPI_Request> h (r, r + n);
  for (int i = 0; i < n; ++i)
    k[i] = r[i] != MPI_REQUEST_NULL && take_req (r[i], q[i]);
  std::vector<MPI_Status> x (n + 1);
  int rc = PMPI_Testall (n, r, flag, x.data ());
  if (*flag)
    for (int i = 0; i < n; ++i) {
      if (k[i]) {
        pm ().req.erase (h[i]);
        done_req (q[i], x[i]);
      }
      if (s != MPI_STATUSES_IGNORE)
        s[i] = x[i];
    }
  return rc;
}
int
MPI_Request_free (MPI_Request *r)
{
  Req q;
  if (*r != MPI_REQUEST_NULL && take_req (*r, q)) {
    viol ("mpi-request-free", "a pending %s was abandoned", q.kind == 0 ? "send" : "receive");
    pm ().req.erase (*r);
  }
  return PMPI_Request_free (r);
}
int
MPI_Cancel (MPI_Request *r)
{
  if (*r != MPI_REQUEST_NULL && pm ().req.count (*r))
    viol ("mpi-cancel", "a pending operation was cancelled");
  return PMPI_Cancel (r);
}
int
MPI_Allreduce (const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
  nap ();
  note_coll ("Allreduce", c, bytes_of (n, t), 0);
  return PMPI_Allreduce (a, b, n, t, o, c);
}
int
MPI_Bcast (void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  nap ();
  note_coll ("Bcast", c, bytes_of (n, t), root);
  return PMPI_Bcast (b, n, t, root, c);
}
int
MPI_Allgather (const void *a, int na, MPI_Datatype ta, void *b, int nb, MPI_Datatype tb, MPI_Comm c)
{
  nap ();
  note_coll ("Allgather", c, bytes_of (nb, tb), 0);
  return PMPI_Allgather (a, na, ta, b, nb, tb, c);
}
int
MPI_Allgatherv (const void *a, int na, MPI_Datatype ta, void *b, const int *nb, const int *d, MPI_Datatype tb, MPI_Comm c)
{
  nap ();
  int n;
  PMPI_Comm_size (c, &n);
  size_t s = 0;
  for (int i = 0; i < n; ++i)
    s = s * 31 + bytes_of (nb[i], tb);
  note_coll ("Allgatherv", c, s, 0);
  return PMPI_Allgatherv (a, na, ta, b, nb, d, tb, c);
}
int
MPI_Gather (const void *a, int na, MPI_Datatype ta, void *b, int nb, MPI_Datatype tb, int root, MPI_Comm c)
{
  nap ();
  note_coll ("Gather", c, bytes_of (na, ta), root);
  return PMPI_Gather (a, na, ta, b, nb, tb, root, c);
}
int
MPI_Gatherv (const void *a, int na, MPI_Datatype ta, void *b, const int *nb, const int *d, MPI_Datatype tb, int root, MPI_Comm c)
{
  nap ();
  note_coll ("Gatherv", c, 0, root);
  return PMPI_Gatherv (a, na, ta, b, nb, d, tb, root, c);
}
int
MPI_Reduce (const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c)
{
  nap ();
  note_coll ("Reduce", c, bytes_of (n, t), root);
  return PMPI_Reduce (a, b, n, t, o, root, c);
}
int
MPI_Scan (const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
  nap ();
  note_coll ("Scan", c, bytes_of (n, t), 0);
  return PMPI_Scan (a, b, n, t, o, c);
}
int
MPI_Exscan (const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
  nap ();
  note_coll ("Exscan", c, bytes_of (n, t), 0);
  return PMPI_Exscan (a, b, n, t, o, c);
}
int
MPI_Alltoall (const void *a, int na, MPI_Datatype ta, void *b, int nb, MPI_Datatype tb, MPI_Comm c)
{
  nap ();
  note_coll ("Alltoall", c, bytes_of (na, ta), 0);
  return PMPI_Alltoall (a, na, ta, b, nb, tb, c);
}
int
MPI_Barrier (MPI_Comm c)
{
  nap ();
  note_coll ("Barrier", c, 0, 0);
  return PMPI_Barrier (c);
}
int
MPI_Comm_dup (MPI_Comm c, MPI_Comm *d)
{
  nap ();
  note_coll ("Comm_dup", c, 0, 0);
  int rc = PMPI_Comm_dup (c, d);
  if (on (MPI_WATCH)) {
    pm ().dups.insert (*d);
    count ("comm_dups");
  }
  return rc;
}
int
MPI_Comm_free (MPI_Comm *c)
{
  nap ();
  pm ().dups.erase (*c);
  return PMPI_Comm_free (c);
}
}
