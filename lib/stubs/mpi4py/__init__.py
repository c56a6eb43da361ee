"""Stand-in for mpi4py backed by the simulated, schedule-controlled MPI."""
