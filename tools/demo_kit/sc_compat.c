/* The two functions of the newer libsc that t8code calls; see sc_compat.h. */
#include "sc_compat.h"

int
sc_get_package_id (void)
{
  return sc_package_id;
}

/* libsc: "attach node communicators if there are none yet, return the size of the intranode communicator" */
int
sc_mpi_comm_get_and_attach (sc_MPI_Comm comm)
{
  sc_MPI_Comm intranode = sc_MPI_COMM_NULL, internode = sc_MPI_COMM_NULL;
  int size = 0;
  sc_mpi_comm_get_node_comms (comm, &intranode, &internode);
  if (intranode == sc_MPI_COMM_NULL || internode == sc_MPI_COMM_NULL) {
    sc_mpi_comm_attach_node_comms (comm, 0);
    sc_mpi_comm_get_node_comms (comm, &intranode, &internode);
  }
  if (intranode != sc_MPI_COMM_NULL) {
    int mpiret = sc_MPI_Comm_size (intranode, &size);
    SC_CHECK_MPI (mpiret);
  }
  return size;
}
