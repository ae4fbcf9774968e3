"""Deterministic stand-in models whose fit does not depend on the order of rows or features."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin


class Ridge(RegressorMixin, BaseEstimator):
    def __init__(self, lam=0.3):
        self.lam = lam

    def fit(self, X, y, sample_weight=None):
        X = np.c_[np.asarray(X, float), np.ones(len(X))]
        w = np.ones(len(X)) if sample_weight is None else np.asarray(sample_weight, float)
        self.coef_ = np.linalg.solve((X * w[:, None]).T @ X + self.lam * np.eye(X.shape[1]), (X * w[:, None]).T @ np.asarray(y, float))
        return self

    def predict(self, X):
        return np.c_[np.asarray(X, float), np.ones(len(X))] @ self.coef_


class Kernel(ClassifierMixin, BaseEstimator):
    """kernel-smoothed class frequencies"""

    def __init__(self, h=1.0, prior=0.1):
        self.h = h
        self.prior = prior

    def fit(self, X, y, sample_weight=None):
        self.X_ = np.asarray(X, float)
        self.classes_, self.y_ = np.unique(np.asarray(y), return_inverse=True)
        self.w_ = np.ones(len(self.X_)) if sample_weight is None else np.asarray(sample_weight, float)
        return self

    def predict_proba(self, X):
        X = np.asarray(X, float)
        d = ((X[:, None, :] - self.X_[None]) ** 2).sum(2)
        K = np.exp(-d / (2 * self.h)) * self.w_
        P = np.stack([K[:, self.y_ == c].sum(1) for c in range(len(self.classes_))], 1) + self.prior
        return P / P.sum(1, keepdims=True)

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]


class Mask(RegressorMixin, BaseEstimator):
    """column 0 of X carries 2**i for round i: the prediction is the set of rounds trained on"""

    def fit(self, X, y, sample_weight=None):
        self.m_ = float(np.asarray(X)[:, 0].sum())
        return self

    def predict(self, X):
        return np.full(len(X), self.m_)


class MaskClf(ClassifierMixin, BaseEstimator):
    """as Mask, as a classifier: the set of rounds is packed into the probability of each class"""

    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.unique(y)
        self.m_ = int(sum(set(np.asarray(X)[:, 0].tolist())))
        return self

    def predict_proba(self, X):
        p = (self.m_ + 0.5) / 2.0**52
        out = np.full((len(X), len(self.classes_)), (1 - p) / max(1, len(self.classes_) - 1))
        out[:, 1 if len(self.classes_) > 1 else 0] = p
        return out

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]


class Spy(ClassifierMixin, BaseEstimator):
    """records every training set"""
    log = []

    def fit(self, X, y, sample_weight=None):
        Spy.log.append((np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight)))
        self.classes_ = np.unique(y)
        return self

    def predict_proba(self, X):
        return np.full((len(X), len(self.classes_)), 1 / len(self.classes_))

    def predict(self, X):
        return np.full(len(X), self.classes_[0])


def bits(v, n):
    v = int(v)
    return [i for i in range(n) if v >> i & 1]
