'''A scratch data set with a region, a distance matrix and solvers trained with a trainer whose
models are fingerprints of the series they were trained with (the same as in Training.tla).
All series are exact in units of 1/64, also when the region is scaled.'''
import os
from collections import namedtuple
import numpy as np

from core import BAD, NAN
from obs import num
from kmedoids_driver import matrix_of
from spta.clustering.kmedoids import KmedoidsClusteringMetadata
from spta.clustering.regular import RegularClusteringMetadata
from spta.distance.dtw import DistanceByDTW
from spta.model.base import ModelRegion
from spta.model.train import ModelTrainer
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.spatial import SpatialRegion
from spta.solver.train import SolverTrainer

U = 64


def sig(values):
    acc = 1
    for v in values:
        acc = (acc * 31 + v + 7) % 9973
    return acc


def in_units(series):
    out = []
    for v in np.asarray(series, dtype=float).tolist():
        w = v * U
        out.append(int(round(w)) if w == w else -1)
    return out


# in some worlds every number (sample, forecast) is this much larger than a whole number of 1/64,
# which gets lost when it is stored with less than double precision
NEAR = [1.0]
EXTRA = 2.0 ** -30


def unit(v):
    '''whole number of 1/64; with the surplus of this world'''
    n = num(v, U)
    if NEAR[0] == 1.0 or abs(n) > 1000000 or n == 0:
        return n
    return n if .9 * EXTRA < float(v) * U / n - 1 < 2.1 * EXTRA else BAD


def units(vs):
    try:
        return [unit(v) for v in np.asarray(vs).ravel().tolist()]
    except Exception:
        return [BAD]


class HashParams(namedtuple('HashParams', 'par fail refit')):
    __slots__ = ()

    def __repr__(self):
        return 'hash-p{}-f{}-r{}'.format(self.par, self.fail, self.refit)


class HashModel:
    def __init__(self, sig, order):
        self.sig = sig
        self.order = order


class ModelRegionHash(ModelRegion):
    def forecast_from_model(self, model_at_point, forecast_len, value_at_point, point):
        m = model_at_point
        return np.array([(1 + (m.sig * j + m.order * 11 + j * j) % 89) / U for j in range(1, forecast_len + 1)]) * NEAR[0]

    def instance(self, model_numpy_array):
        return ModelRegionHash(model_numpy_array)


TRAINED = []      # fingerprints of the series seen by training functions


def fails(g, fail):
    return fail > 0 and g % fail == 0


class TrainerHash(ModelTrainer):
    def __init__(self, params=None, x_len=0, y_len=0, params_region=None):
        if params_region is None:
            super(TrainerHash, self).__init__(model_params_and_shape=(params, x_len, y_len))
        else:
            super(TrainerHash, self).__init__(model_params_region=params_region)
        self.refit = params.refit if params is not None else 0
        self.fail = params.fail if params is not None else 0

    def training_function(self, model_params, training_series):
        if model_params is None:
            return None
        g = sig(in_units(training_series))
        TRAINED.append((len(training_series), g))
        if fails(g, model_params.fail):
            return None
        return HashModel(g, (g + model_params.par) % 3)

    def create_model_region(self, numpy_model_array):
        r = ModelRegionHash(numpy_model_array)
        r.fail = self.fail
        return r

    def create_refitter(self, model_region):
        if self.refit:
            return RefitterHash(model_region)
        return super(TrainerHash, self).create_refitter(model_region)


class RefitterHash(ModelTrainer):
    '''trains again with the order found in an earlier training'''

    def __init__(self, model_region):
        orders = np.full(model_region.shape, None, dtype=object)
        for p, m in model_region:
            if isinstance(m, HashModel):
                orders[p.x, p.y] = (m.order, model_region.fail)
        params = np.empty(orders.shape, dtype=object)
        for i in np.ndindex(*orders.shape):
            params[i] = orders[i]
        super(RefitterHash, self).__init__(model_params_region=SpatialRegion(params))

    def training_function(self, model_params, training_series):
        if model_params is None:
            return None
        order, fail = model_params
        g = sig(in_units(training_series))
        return None if fails(g, fail) else HashModel(g, order)

    def create_model_region(self, numpy_model_array):
        return ModelRegionHash(numpy_model_array)


def make_series(rng, length, scaled, kind=None):
    '''integers in 1..104; when scaled, max - min is 0 or a power of two'''
    if not scaled:
        return [rng.randrange(1, 81) for _ in range(length)]
    lo = rng.randrange(1, 41)
    if rng.random() < .1:
        return [lo] * length
    r = 2 ** rng.randrange(0, 7)
    s = [rng.randrange(lo, lo + r + 1) for _ in range(length)]
    i, j = rng.sample(range(length), 2)
    s[i], s[j] = lo, lo + r
    return s


class World:
    LEN = 365
    YEAR = 2015

    def __init__(self, rng, shape=None, names=('r',), near=False):
        self.rng = rng
        NEAR[0] = 1 + EXTRA if near else 1.0
        os.makedirs('raw', exist_ok=True)
        self.X, self.Y = shape or rng.choice([(2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 2), (2, 5)])
        self.n = self.X * self.Y
        self.x1, self.y1 = rng.randrange(0, 4), rng.randrange(0, 4)
        big = np.random.RandomState(rng.randrange(1 << 30)).randint(200, 999, (self.LEN, self.x1 + self.X + 2, self.y1 + self.Y + 2)).astype(float)
        self.data = []
        for i in range(self.n):
            s = make_series(rng, self.LEN, True) if rng.random() < .8 else make_series(rng, self.LEN, True)
            self.data.append(s)
            big[:, self.x1 + i // self.Y, self.y1 + i % self.Y] = np.array(s) * NEAR[0]
        self.big = big
        np.save('raw/SouthAmerica_{0}_{0}_1spd.npy'.format(self.YEAR), big)
        self.distances = {}

    def region(self, name='r', scaled=False):
        md = SpatioTemporalRegionMetadata(name, Region(self.x1, self.x1 + self.X, self.y1, self.y1 + self.Y),
                                          self.YEAR, self.YEAR, 1, scaled=scaled)
        if repr(md) not in self.distances:
            d = matrix_of(self.rng, self.n)
            self.distances[repr(md)] = d
            np.save(md.distances_filename, np.array(d, dtype=float))
        return md

    def clustering(self, kind, k, seed=1, mode='lite'):
        return RegularClusteringMetadata(k) if kind == 'regular' else KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode)

    def trainer(self, md, clustering, params, tl, err):
        return SolverTrainer(region_metadata=md, clustering_metadata=clustering, distance_measure=DistanceByDTW(),
                             model_trainer=TrainerHash(params, self.X, self.Y), model_params=params, test_len=tl, error_type=err)


def lists(region3d, scale=U):
    '''series of every point of a spatio-temporal array, in units'''
    a = np.asarray(region3d)
    return [[num(v, scale) for v in a[:, i, j]] for i in range(a.shape[1]) for j in range(a.shape[2])]


def err_unit(v):
    return num(v, U)
