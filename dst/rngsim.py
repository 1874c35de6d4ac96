"""The random source as a seam: a scripted stream of variates behind numpy's and Python's process-wide generators."""
import ctypes
import random
import threading

LOWEST, HIGHEST = 0.0, 1.0 - 2.0 ** -53

_F64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_F32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_FD = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)


class _bitgen(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("next_uint64", ctypes.c_void_p), ("next_uint32", ctypes.c_void_p),
                ("next_double", ctypes.c_void_p), ("next_raw", ctypes.c_void_p)]


class Stream:
    """first the scripted variates of [0,1), then a seeded generator"""

    def __init__(self, script, seed):
        self.script, self.i, self.rest, self.used = list(script), 0, random.Random(seed), 0

    def next(self):
        self.used += 1
        if self.i < len(self.script):
            self.i += 1
            return self.script[self.i - 1]
        return self.rest.random()


class _Gen:
    def __init__(self, stream):
        self.lock = threading.Lock()
        self.stream = stream
        nx = stream.next
        u64 = _F64(lambda s: int(nx() * 2 ** 53) << 11)
        self._keep = (u64, _F32(lambda s: int(nx() * 2 ** 32)), _FD(lambda s: nx()), u64)
        self._b = _bitgen(None, *[ctypes.cast(x, ctypes.c_void_p) for x in self._keep])
        new = ctypes.pythonapi.PyCapsule_New
        new.restype, new.argtypes = ctypes.py_object, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        self._name = b"BitGenerator"
        self.capsule = new(ctypes.addressof(self._b), self._name, None)


class _Py(random.Random):
    stream = None

    def random(self):
        return self.stream.next()

    def getrandbits(self, k):
        return int(self.stream.next() * (1 << min(k, 53))) << max(0, k - 53)


class scripted:
    """with scripted(script, seed) as stream: numpy.random and random draw from it"""

    def __init__(self, script, seed):
        self.stream = Stream(script, seed)

    def __enter__(self):
        import numpy as np
        self._np = np.random.get_bit_generator()
        self._gen = _Gen(self.stream)
        np.random.set_bit_generator(self._gen)
        inst = _Py()
        inst.stream = self.stream
        self._py = {}
        for n in ("random", "uniform", "choice", "choices", "randrange", "randint", "shuffle", "sample", "getrandbits", "betavariate", "gammavariate",
                  "expovariate", "triangular", "gauss", "normalvariate"):
            self._py[n] = getattr(random, n)
            setattr(random, n, getattr(inst, n))
        return self.stream

    def __exit__(self, *a):
        import numpy as np
        np.random.set_bit_generator(self._np)
        for n, f in self._py.items():
            setattr(random, n, f)
        return False


def gen_script(rng, cuts, n):
    """n variates that sit on the borders: the extremes, given cut points and their neighbours, near-zero values"""
    import math
    pool = [LOWEST, HIGHEST]
    for c in cuts:
        for x in (c, math.nextafter(c, 0.0), math.nextafter(c, 1.0)):
            if 0.0 <= x <= HIGHEST:
                pool.append(x)
    pool += [2.0 ** -53, 2.0 ** -32, 0.5, 1.0 - 2.0 ** -32]
    r = rng.random()
    if r < 0.15:
        return [LOWEST] * n
    if r < 0.3:
        return [HIGHEST] * n
    if r < 0.4:
        return [rng.choice([LOWEST, HIGHEST]) for _ in range(n)]
    return [rng.choice(pool) if rng.random() < 0.8 else rng.random() for _ in range(n)]
