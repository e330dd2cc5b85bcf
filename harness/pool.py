"""Parallel map over worker processes running the code under test."""
import os
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp


def pmap(fn, items, jobs=None, chunk=None):
    items = list(items)
    jobs = jobs or min(8, os.cpu_count() or 4)
    if len(items) < 4:
        jobs = min(jobs, max(1, len(items)))
    chunk = chunk or max(1, min(16, len(items) // (jobs * 4) or 1))
    with ProcessPoolExecutor(jobs, mp_context=mp.get_context('fork')) as ex:
        return list(ex.map(fn, items, chunksize=chunk))
