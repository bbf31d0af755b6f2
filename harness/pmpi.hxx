/* Interposition of MPI (profiling interface): requests, message counts, send buffers, order of collectives; adversarial timing. */
#ifndef VF_PMPI_HXX
#define VF_PMPI_HXX
#include "common.hxx"
namespace vf
{
enum {
  MPI_WATCH = 1,  /* requests, counts, buffers, collectives */
  MPI_DELAY = 2,  /* random sleeps around calls */
  MPI_SYNC = 4,   /* standard sends become synchronous sends */
  MPI_SHUFFLE = 8 /* wildcard receives choose among the pending sources at random */
};
void
mpi_watch (int mode, u64 seed);
/* no change of the modes without this; collective over st ().comm: every started operation is over */
void
mpi_quiet (const char *where);
/* number of communicators duplicated and not freed */
int
mpi_dups ();
}  // namespace vf
#endif
