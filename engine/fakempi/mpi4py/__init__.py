"""Simulated mpi4py (see /verif/engine)."""
__version__ = "4.0.0"


class _Rc:
    def __call__(self, **kw):
        self.__dict__.update(kw)


rc = _Rc()
