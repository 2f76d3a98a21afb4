"""Stub batch detectors: the peer behind ReferenceWindowModel / OneFitModel. Their decision value is a
deterministic fingerprint of everything they were fitted on (rows, order, labels, arguments)."""
import numpy as np


class FitFailure(RuntimeError):
    pass


POISON = 4096.0  # a training set containing this first coordinate makes fit fail


class Mini:
    """Smooth fingerprint detector; re-fitting an already fitted object is visible in its scores."""

    def __init__(self, scale=1.0, bias=0.0):
        self.scale = scale
        self.bias = bias
        self.fits = 0
        self.fp = None

    def fit(self, X, y=None):
        X = np.asarray(X, dtype=np.float64)
        self.fits += 1
        self.half = 1  # a failed fit leaves a detector that cannot score
        if X.ndim != 2 or len(X) == 0:
            raise FitFailure("bad training set")
        if np.any(X[:, 0] == POISON):
            raise FitFailure("training diverged")
        n, d = X.shape
        w = np.arange(1, n + 1, dtype=np.float64)
        self.center = X.mean(axis=0)
        self.fp = float((X * w[:, None]).sum() / n) + 7.0 * n
        self.lab = 0.0
        if y is not None:
            y = np.asarray(y, dtype=np.float64).ravel()
            if len(y) != n:
                raise FitFailure("labels do not match")
            self.lab = float((y * w).sum()) + 0.5
        return self

    def decision_function(self, X):
        X = np.asarray(X, dtype=np.float64)
        if self.fp is None:
            raise FitFailure("not fitted")
        d = np.abs(X - self.center).sum(axis=1)
        return self.scale * d + self.fp + 1000.0 * self.lab + self.bias + 1e6 * (self.fits - 1)
