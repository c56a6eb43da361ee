"""Simulated MPI namespace. See lib/simmpi.py for semantics."""
import time

from simmpi import (  # noqa: F401
    IN_PLACE, COMM_WORLD, SUM, MAX, MIN, PROD, LAND, LOR, Op, Comm, Intracomm,
    DOUBLE, FLOAT, INT, LONG, INT64_T, INT32_T, BOOL, C_BOOL, BAND, BOR)

Wtime = time.perf_counter


def Is_initialized():
    return True


def Finalize():
    return None
