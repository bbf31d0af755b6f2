/* Forced include (-include) for every translation unit of t8code and of the harness.
 *
 * The sandbox has libsc 2.3.6; t8code is written against a newer libsc that has a few more names.
 * With MPI enabled the newer libsc defines these sc_MPI_* names as plain aliases of the MPI ones
 * (exactly as 2.3.6 does for all its other sc_MPI_* names), so the aliases below are what the real
 * library would give.  sc_mpi_comm_get_and_attach is defined in sc_compat.c. */
#ifndef VERIF_SC_COMPAT_H
#define VERIF_SC_COMPAT_H

#include <sc.h>
#include <sc_mpi.h>

#ifndef sc_MPI_PACKED
#define sc_MPI_PACKED MPI_PACKED
#endif
#ifndef sc_MPI_INT8_T
#define sc_MPI_INT8_T MPI_INT8_T
#endif
#ifndef sc_MPI_Pack
#define sc_MPI_Pack MPI_Pack
#endif
#ifndef sc_MPI_Unpack
#define sc_MPI_Unpack MPI_Unpack
#endif
#ifndef sc_MPI_Pack_size
#define sc_MPI_Pack_size MPI_Pack_size
#endif

#ifdef __cplusplus
extern "C" {
#endif
int sc_mpi_comm_get_and_attach (sc_MPI_Comm comm);
int sc_get_package_id (void);
#ifdef __cplusplus
}
#endif

#endif
