"""Stands in for the extension where a contract does not call the C library."""


class _Null:
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise RuntimeError('the C library is not part of this contract: ' + k)


lib, ffi = _Null(), _Null()
