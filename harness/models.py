"""Models the scenarios run. Every function is a pure function of the coordinates, so that it can be evaluated again as the oracle."""
import math
import numpy as np
from cpnest.model import Model

INF = math.inf


class Base(Model):
    names = ['x', 'y']
    bounds = [[-3.0, 3.0], [-3.0, 3.0]]

    def force(self, q):
        return np.zeros(1, dtype={'names': q.names, 'formats': ['f8' for _ in q.names]})


class Gauss2(Base):
    def log_likelihood(self, p):
        x, y = p.values
        return -0.5 * (x * x + y * y)


class Gauss1(Base):
    names = ['x']
    bounds = [[-4.0, 4.0]]

    def log_likelihood(self, p):
        return -0.5 * p.values[0] ** 2


class Gauss3(Base):
    names = ['a', 'b', 'c']
    bounds = [[-1.0, 3.0], [0.0, 10.0], [-20.0, 20.0]]

    def log_likelihood(self, p):
        a, b, c = p.values
        return -0.5 * ((a - 1) ** 2 + ((b - 4) / 2) ** 2 + (c / 5) ** 2) + 7.25


class NanPart(Base):
    """NaN on a part of the prior"""
    def log_likelihood(self, p):
        x, y = p.values
        if x < -1.0:
            return math.nan
        return -0.5 * (x * x + y * y)


class NanMost(Base):
    """NaN on most of the prior"""
    def log_likelihood(self, p):
        x, y = p.values
        if x < 0.5:
            return math.nan
        return -0.5 * (x * x + y * y)


class InfPart(Base):
    """-inf on a part of the prior"""
    def log_likelihood(self, p):
        x, y = p.values
        if x + y < 0.0:
            return -INF
        return -0.5 * (x * x + y * y)


class InfMost(Base):
    def log_likelihood(self, p):
        x, y = p.values
        if abs(x) > 1.0:
            return -INF
        return -0.5 * (x * x + y * y)


class Stairs(Base):
    """Plateaus (ties) low down, smooth near the top"""
    def log_likelihood(self, p):
        x, y = p.values
        r = math.sqrt(x * x + y * y)
        return -math.floor(2.0 * r) / 2.0 if r > 1.5 else -r


class Corner(Base):
    """Maximum in a corner of the prior: chains press against the bounds"""
    bounds = [[0.0, 1.0], [-5.0, 5.0]]

    def log_likelihood(self, p):
        x, y = p.values
        return -3.0 * (1.0 - x) - 0.7 * (5.0 - y)


class Prior(Base):
    """A prior that is neither flat nor normalised, with a forbidden region inside the bounds"""
    def log_prior(self, p):
        if not self.in_bounds(p):
            return -INF
        x, y = p.values
        if x * x + y * y < 0.09 or x + y > 4.5:
            return -INF
        return -0.8 * abs(x) - 0.1 * y + 1.5

    def log_likelihood(self, p):
        x, y = p.values
        return -0.5 * ((x - 0.5) ** 2 + y * y) / 0.6

    def force(self, q):
        f = np.zeros(1, dtype={'names': q.names, 'formats': ['f8' for _ in q.names]})
        f['x'] = 0.8 * np.sign(q['x'])
        f['y'] = 0.1
        return f


class Steep(Base):
    """High information: many iterations, large likelihood range"""
    def log_likelihood(self, p):
        x, y = p.values
        return -0.5 * (x * x + y * y) / 0.01 + 100.0


class Ring(Base):
    def log_likelihood(self, p):
        x, y = p.values
        r = math.sqrt(x * x + y * y)
        return -((r - 1.5) / 0.4) ** 2


class Island(Base):
    """The prior vanishes on most of the box"""
    def log_prior(self, p):
        if not self.in_bounds(p):
            return -INF
        x, y = p.values
        return 0.0 if (x - 1.0) ** 2 + y * y < 0.36 or (x + 1.5) ** 2 + y * y < 0.04 else -INF

    def log_likelihood(self, p):
        x, y = p.values
        return -0.5 * (x * x + y * y)


MODELS = {c.__name__: c for c in (Island, Gauss2, Gauss1, Gauss3, NanPart, NanMost, InfPart, InfMost, Stairs, Corner, Prior, Steep, Ring)}
