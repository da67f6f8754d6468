"""Stand-in for mpi4py (not installed here): ranks are processes, all communication goes through one local server."""
__version__ = "0.0-standin"


class rc:
    threads = False
