import simrt as _s


class _BigMPI:
    @property
    def blocksize(self):
        return (_s.R.cfg.get("blocksize") if _s.R is not None else None) or (1 << 30)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def __call__(self, buf):
        return buf


_bigmpi = _BigMPI()
