// Stand-in for the FleCSI runtime: a registered MPI task is called directly.
#pragma once
#define flecsi_register_mpi_task(task, nspace)
#define flecsi_execute_mpi_task(task, nspace, ...) nspace::task(__VA_ARGS__)
