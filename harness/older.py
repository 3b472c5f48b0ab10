"""The older names of lookups and methods, under the current ones.

Programs run with "older" see spaces, configurations and hyperparameters through
these, so that the same specification decides what the older names give.
"""
from __future__ import annotations

import numpy as np


class By:
    """A mapping that is a method."""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        return self.f(k)


class Space:
    def __init__(self, sp, by_hp=False):
        self.sp = sp
        self.arg = (lambda n: sp[n]) if by_hp else (lambda n: n)

    def __getattr__(self, name):
        return getattr(self.sp, name)

    def __len__(self):
        return len(self.sp.get_hyperparameters())

    def __iter__(self):
        return iter(self.sp.get_hyperparameter_names())

    def __contains__(self, k):
        return k in self.sp.get_hyperparameter_names()

    def __getitem__(self, k):
        return self.sp.get_hyperparameter(k)

    def keys(self):
        return self.sp.get_hyperparameter_names()

    def values(self):
        return self.sp.get_hyperparameters()

    def items(self):
        return self.sp.get_hyperparameters_dict().items()

    @property
    def at(self):
        return [self.sp.get_hyperparameter_by_idx(i) for i in range(len(self))]

    @property
    def index_of(self):
        return By(self.sp.get_idx_by_hyperparameter_name)

    @property
    def conditions(self):
        return self.sp.get_conditions()

    @property
    def forbidden_clauses(self):
        return self.sp.get_forbiddens()

    @property
    def unconditional_hyperparameters(self):
        return self.sp.get_all_unconditional_hyperparameters()

    @property
    def conditional_hyperparameters(self):
        return self.sp.get_all_conditional_hyperparameters()

    @property
    def parents_of(self):
        return By(lambda n: self.sp.get_parents_of(self.arg(n)))

    @property
    def children_of(self):
        return By(lambda n: self.sp.get_children_of(self.arg(n)))

    @property
    def parent_conditions_of(self):
        return By(lambda n: self.sp.get_parent_conditions_of(self.arg(n)))

    @property
    def child_conditions_of(self):
        return By(lambda n: self.sp.get_child_conditions_of(self.arg(n)))


class Hp:
    """Those that are not public may be gone one day: then the current ones are used."""

    def __init__(self, hp):
        self.hp = hp

    def __getattr__(self, name):
        return getattr(self.hp, name)

    def old(self, name, current):
        return getattr(self.hp, name, None) or getattr(self.hp, current)

    @property
    def size(self):
        return self.hp.get_size()

    def legal_value(self, v):
        return self.hp.is_legal(v)

    def legal_vector(self, u):
        return self.hp.is_legal_vector(u)

    def to_value(self, u):
        if isinstance(u, np.ndarray):
            return self.old("_transform_vector", "to_value")(u)
        return self.old("_transform_scalar", "to_value")(u)

    def to_vector(self, v):
        return self.old("_inverse_transform", "to_vector")(v)

    def sample_value(self, size=None, *, seed=None):
        return self.hp.sample(seed) if size is None else self.hp.sample_value(size, seed=seed)

    def sample_vector(self, size=None, *, seed=None):
        if not hasattr(self.hp, "_sample"):
            return self.hp.sample_vector(size, seed=seed)
        return self.hp._sample(seed)[0] if size is None else self.hp._sample(seed, size)

    def neighbors_vectorized(self, vector, n, *, std=None, seed=None):
        if n == 4:
            return self.hp.get_neighbors(vector, seed, std=std)
        return self.hp.get_neighbors(vector, seed, n, std)

    def pdf_values(self, vs):
        if len(vs) % 2 or any(isinstance(v, tuple) for v in vs):
            return self.hp.pdf(vs)
        return np.array([self.hp.pdf(v) for v in vs])

    def pdf_vector(self, us):
        return self.old("_pdf", "pdf_vector")(us)
