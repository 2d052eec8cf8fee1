'''Replaces the ARIMA fitting of pmdarima and statsmodels by the fingerprint models of Models.tla.
Import this before any module of the code under test.

auto_arima(series, start_q=fm, ...): order ((fingerprint + par) % 3, 0, fm), par determined by the other settings
ARIMA(series, order=(ord, 0, fm)).fit(): fails (ValueError) when fm > 0 divides the fingerprint'''
import numpy as np
import pmdarima
import pmdarima.arima
import statsmodels.tsa.arima.model
import statsmodels.tsa.api

U = 64
CALLS = []


def sig(values):
    acc = 1
    for v in values:
        acc = (acc * 31 + v + 7) % 9973
    return acc


def in_units(series):
    out = []
    for v in np.asarray(series, dtype=float).ravel().tolist():
        w = v * U
        out.append(int(round(w)) if w == w else -1)
    return out


class _Spec:
    def __init__(self, order):
        self.order = order


class Fitted:
    def __init__(self, g, order):
        self.g = g
        self.model = _Spec(order)
        self.aic = g - 5000.0

    def forecast(self, steps=1):
        n = int(steps)
        return np.array([(1 + (self.g * j + (self.model.order[0] + 5 * self.model.order[1]) * 11 + j * j) % 89) / U for j in range(1, n + 1)])


class ARIMA:
    def __init__(self, endog, exog=None, order=(0, 0, 0), **kw):
        self.g = sig(in_units(endog))
        self.order = tuple(int(v) for v in order)

    def fit(self, *a, **kw):
        q = self.order[2]
        if q > 0 and self.g % q == 0:
            raise ValueError('cannot fit')
        return Fitted(self.g, self.order)


def par_of(start_p, max_p, max_q, d, stepwise):
    '''what the settings of auto ARIMA amount to: changing one of them by one changes it modulo 3'''
    return start_p + max_p + 2 * max_q + (0 if d is None else d + 1) + (0 if stepwise else 1)


def par_of_params(p):
    return par_of(p.start_p, p.max_p, p.max_q, p.d, p.stepwise)


def auto_arima(y, X=None, start_p=2, d=None, start_q=2, max_p=5, max_d=2, max_q=5, stepwise=True, **kw):
    g = sig(in_units(y))

    class Found:
        order = ((g + par_of(start_p, max_p, max_q, d, stepwise)) % 3, 0, start_q)
    return Found


def install():
    for m in (pmdarima, pmdarima.arima, __import__('sys').modules['pmdarima.arima.auto']):
        m.auto_arima = auto_arima
    for m in (statsmodels.tsa.arima.model, statsmodels.tsa.api):
        m.ARIMA = ARIMA


install()
