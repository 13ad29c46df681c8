"""As much of torch as the wrappers use: tensors share the NumPy memory they come from, a 'cuda' copy does not."""
import numpy as np
class Tensor:
    def __init__(s, a, dev): s.a, s.dev = a, dev
    def requires_grad_(s, b): return s
    def to(s, dev, non_blocking=False): return s if dev == s.dev else Tensor(s.a.copy(), dev)
    def cpu(s): return s.to("cpu")
    def zero_(s): s.a[...] = 0; return s
    def __setitem__(s, k, v):
        s.a[k] = v.a if isinstance(v, Tensor) else v
    def __getitem__(s, k): return s.a[k]
    def numpy(s): return s.a
def from_numpy(a): return Tensor(a, "cpu")
class cuda:
    available = True
    @staticmethod
    def is_available(): return cuda.available
    @staticmethod
    def synchronize(): pass
