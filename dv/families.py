"""Enumerated families of signatures and subspaces."""
import itertools
from dv.core import rng
from dv.spec import order, popcount, blades_of_grades
import dv.env as env


def ordered_signatures(n):
	return list(itertools.product((1, -1, 0), repeat=n))

def pqr_signatures(n):
	return [(1,) * p + (-1,) * q + (0,) * (n - p - q) for p in range(n, -1, -1) for q in range(n - p, -1, -1)]

def all_subsets(n, empty=True):
	N = 1 << n
	for m in range(0 if empty else 1, 1 << N):
		yield [b for b in range(N) if m >> b & 1]

def grade_combos(n, empty=False):
	for m in range(0 if empty else 1, 1 << (n + 1)):
		yield blades_of_grades(n, [g for g in range(n + 1) if m >> g & 1])

def k_vectors(n):
	return [blades_of_grades(n, [g]) for g in range(n + 1)]

def random_subset(r, n, p=None, nonempty=True):
	N = 1 << n
	while True:
		q = p or r.choice([0.15, 0.3, 0.5, 0.8])
		s = [b for b in range(N) if r.random() < q]
		if s or not nonempty:
			return s

def random_sig(r, n):
	return tuple(r.choice((1, 1, -1, 0)) for _ in range(n))

def chunks(l, k):
	l = list(l)
	return [l[i::k] for i in range(k) if l[i::k]]
