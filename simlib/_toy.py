# Small programs with known answers, for ./check selftest.
from numba import njit, prange, set_num_threads
import numpy as np
import threading

@njit(parallel=True)
def racy(n):
    total = np.zeros(1)
    for i in prange(n):
        total[0] += 1.0
    return total[0]

@njit(parallel=True)
def reduced(n):
    total = 0.0
    for i in prange(n):
        total += 1.0
    return total

@njit(parallel=True)
def rows(x):
    out = np.zeros(x.shape[0])
    for i in prange(x.shape[0]):
        a = 0.0
        for j in range(x.shape[1]):
            a += x[i, j]
        out[i] = a
    return out

@njit(parallel=True)
def shared_scratch(x):
    out = np.zeros(x.shape[0])
    buf = np.zeros(x.shape[1])
    for i in prange(x.shape[0]):
        for j in range(x.shape[1]):
            buf[j] = x[i, j]
        out[i] = buf.sum()
    return out

@njit(parallel=True)
def draws(n):
    np.random.seed(3)
    out = np.zeros(n)
    for i in prange(n):
        out[i] = np.random.random()
    return out

def lock_order(flag):
    a, b = threading.Lock(), threading.Lock()
    def one():
        with a:
            with b:
                pass
    def two():
        with b:
            with a:
                pass
    t = [threading.Thread(target=one), threading.Thread(target=two if flag else one)]
    for q in t: q.start()
    for q in t: q.join()
    return True
