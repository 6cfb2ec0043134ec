"""Table of every public component with a uniform make / fit / read interface (used by C29 and C30)."""
import contextlib
import io
from harness.util import series
from harness import c24


# ---------------------------------------------------------------- third-party stand-ins
def install(ctx):
    def lin(w):
        l = [w[i] for i in range(len(w))]
        m = ctx.mean(l)
        return l, m

    class Res:
        pass

    def stl(x, *a, **k):
        o = Res()

        def fit(*a, **k):
            l, m = lin(x)
            r = Res()
            r.seasonal = ctx.array([0.25 * v for v in l], float)
            r.trend = ctx.array([m for v in l], float)
            r.resid = ctx.array([0.75 * v - m for v in l], float)
            r.weights = ctx.array([1.0 for v in l], float)
            r.observed = ctx.array(l, float)
            return r
        o.fit = fit
        return o
    ctx.hook('statsmodels.tsa.seasonal:STL', stl)
    ctx.hook('pyod.models.iforest:IForest', Det(ctx))
    ctx.hook('PyNomaly.loop:LocalOutlierProbability', Loop(ctx))
    f = c24.Forest(ctx)
    f.disp = lambda k, pts, x: sum(3.0 * p[0] + sum(p[1:]) for p in pts) * 2.0 + x[0] + 7.0 * len(pts)
    ctx.hook('rrcf:RCTree', lambda *a, **k: c24.Tree(f, 0))

    class proj:
        def __init__(self, n_components='auto', **k):
            pass

        def fit(self, X, y=None):
            import numpy
            self.W = [[float(round(v * 8) / 8) for v in r] for r in numpy.random.normal(size=(len(X[0]), 2)).tolist()]
            return self

        def transform(self, X):
            return ctx.array([[ctx.sum([1.0 * x[i] * self.W[i][c] for i in range(len(x))]) for c in range(2)] for x in X], float)

        def fit_transform(self, X, y=None):
            return self.fit(X).transform(X)
    ctx.hook('sklearn.random_projection:GaussianRandomProjection', proj)
    ctx.hook('sklearn.random_projection:SparseRandomProjection', proj)


def Det(ctx):
    class D:
        def __init__(self, **kw):
            self.kw = kw

        def fit(self, X, y=None):
            self.X = X   # many detectors go on referring to the array they were given, e.g. pyod's KNN
            return self

        def known(self):
            self.n = len(self.X)
            self.s = ctx.sum([(i + 1) * (1.0 * r[0] + 2.0 * ctx.sum([1.0 * v for v in list(r)[1:]])) for i, r in enumerate(self.X)])

        def decision_function(self, X):
            self.known()
            return ctx.array([self.s + 10.0 * self.n + 2.0 * r[0] - ctx.sum([1.0 * v for v in list(r)[1:]]) for r in X], float)
    return D


def Loop(ctx):
    class L:
        def __init__(self, data=None, **k):
            self.data = data   # PyNomaly refers to the array it was given

        def fit(self):
            return self

        def stream(self, x):
            self.s = ctx.sum([(i + 1) * ctx.sum([1.0 * v for v in r]) for i, r in enumerate(self.data)])
            return self.s + 5.0 * x[0] - ctx.sum([1.0 * v for v in list(x)[1:]])
    return L


# ---------------------------------------------------------------- the table
class C:
    """one component: make(ctx) -> object; fit(o, a); read(o, a) -> value; arg(ctx, vals) -> call argument"""

    def __init__(self, mod, make, d=1, n=5, first=1, kind='model', symfit=True, lo=None, hi=None, guard=None, query=True, quiet=False, budget=None, labels=False, step=1):
        self.mod, self.mk, self.d, self.n, self.first, self.kind = mod, make, d, n, first, kind
        self.symfit, self.lo, self.hi, self.guard, self.query, self.quiet, self.budget, self.labels, self.step = symfit, lo, hi, guard, query, quiet, budget, labels, step

    pops = False   # a read consumes what was fitted: one read per instance

    def make(self, ctx):
        return self.mk(ctx, ctx.mod(self.mod))

    def arg(self, ctx, v):
        if self.kind in ('model', 'trans', 'ens'):
            return ctx.array(v, float)
        return v[0]

    def fit(self, o, a, y=None):
        k = self.kind
        with contextlib.redirect_stdout(io.StringIO()) if self.quiet else contextlib.nullcontext():
            if k == 'model':
                return o.fit_partial(a, y)
            if k == 'stat':
                return o.update(a)
            if k == 'metric':
                return o.update(y, a)
            return o.fit_partial(a)

    def read(self, o, a):
        k = self.kind
        with contextlib.redirect_stdout(io.StringIO()) if self.quiet else contextlib.nullcontext():
            if k == 'model':
                return o.score_partial(a)
            if k in ('stat', 'metric'):
                return o.get()
            return o.transform_partial(a)


M = 'pysad.models.'
T = 'pysad.transform.'
S = 'pysad.statistics'


def _init(ctx, d=2, r=4):
    s = series(r * d, 9)
    return ctx.array([s[i * d:(i + 1) * d] for i in range(r)], float)


def _unit(ctx, d):
    return ctx.array([0.0] * d, float), ctx.array([1.0] * d, float)


TABLE = {
    'storm': C(M + 'exact_storm', lambda c, m: m.ExactStorm(window_size=3, max_radius=2.0), d=2),
    'hst': C(M + 'half_space_trees', lambda c, m: m.HalfSpaceTrees(*_unit(c, 2), window_size=2, num_trees=2, max_depth=2), d=2, lo=0, hi=1, symfit=False),
    'iforest': C(M + 'iforest_asd', lambda c, m: m.IForestASD(window_size=2), d=2, first=2),
    'iforest_init': C(M + 'iforest_asd', lambda c, m: m.IForestASD(initial_window_X=_init(c), window_size=4), d=2, first=0),
    'kitnet': C(M + 'kitnet', lambda c, m: m.KitNet(max_size_ae=2, grace_feature_mapping=2, grace_anomaly_detector=3), d=3, n=9, symfit=False, quiet=True, lo=0, hi=1),
    'knncad': C(M + 'knn_cad', lambda c, m: m.KNNCAD(48), n=60, first=0, symfit=False),
    'loda': C(M + 'loda', lambda c, m: m.LODA(num_bins=4, num_random_cuts=2), d=4, n=3, symfit=False),
    'loop': C(M + 'loop', lambda c, m: m.LocalOutlierProbability(_init(c)), d=2, first=0),
    'mad': C(M + 'median_absolute_deviation', lambda c, m: m.MedianAbsoluteDeviation(), n=4, symfit=False),
    'null': C(M + 'null_model', lambda c, m: m.NullModel(), first=0),
    'relent': C(M + 'relative_entropy', lambda c, m: m.RelativeEntropy(-20.0, 20.0, num_bins=3, window_size=3), n=7, symfit=False, lo=-20, hi=20),
    'rrcf': C(M + 'robust_random_cut_forest', lambda c, m: m.RobustRandomCutForest(num_trees=2, tree_size=3), d=2, n=5, symfit=False),
    'rshash': C(M + 'rs_hash', lambda c, m: m.RSHash(*_unit(c, 2), sampling_points=4, num_components=2), d=2, n=3, symfit=False, lo=0, hi=1),
    'sesd': C(M + 'seasonal_esd', lambda c, m: m.SeasonalESD(2, 5, 1), n=6, first=1, symfit=False, query=False),
    'shesd': C(M + 'seasonal_esd', lambda c, m: m.SeasonalHybridESD(2, 5, 1), n=6, first=1, symfit=False, query=False),
    'sad': C(M + 'standard_absolute_deviation', lambda c, m: m.StandardAbsoluteDeviation(), n=4, symfit=False),
    'sad_med': C(M + 'standard_absolute_deviation', lambda c, m: m.StandardAbsoluteDeviation('median', False), n=4, symfit=False),
    'xstream': C(M + 'xstream', lambda c, m: m.xStream(num_components=3, n_chains=2, depth=2, window_size=2), d=3, n=5, lo=-2, hi=2, symfit=False),
    'onefit': C(M + 'integrations.one_fit_model', lambda c, m: m.OneFitModel(Det(c), _init(c)), d=2, first=0),
    'refwin': C(M + 'integrations.reference_window_model', lambda c, m: m.ReferenceWindowModel(Det(c), 3, 2), d=2, n=6, first=3, labels=True),
    'streamhash': C(T + 'projection.streamhash_projector', lambda c, m: m.StreamhashProjector(3), d=2, kind='trans', first=0),
    'grp': C(T + 'projection.random_projector', lambda c, m: m.GaussianRandomProjector(2), d=3, kind='trans'),
    'srp': C(T + 'projection.random_projector', lambda c, m: m.SparseRandomProjector(2), d=3, kind='trans'),
    'unit': C(T + 'preprocessing.instance_unit_norm_scaler', lambda c, m: m.InstanceUnitNormScaler(), d=2, kind='trans', lo=1, hi=5, first=0),
    'unit1': C(T + 'preprocessing.instance_unit_norm_scaler', lambda c, m: m.InstanceUnitNormScaler(pow=1), d=2, kind='trans', lo=1, hi=5, first=0),
    'std': C(T + 'preprocessing.instance_standard_scaler', lambda c, m: m.InstanceStandardScaler(), d=2, n=4, kind='trans'),
    'ident': C(T + 'preprocessing.identity_scaler', lambda c, m: m.IdentityScaler(), d=2, kind='trans', first=0),
    'stl': C(T + 'preprocessing.modified_stl_residual', lambda c, m: m.ModifiedSTLResidualTransformer(2, 5), kind='trans', n=7),
    'season': C(T + 'preprocessing.seasonal_trend_decomposer', lambda c, m: m.SeasonalTrendDecomposer(2, 3), d=2, n=7, kind='trans'),
    'avgpp': C(T + 'postprocessing', lambda c, m: m.AveragePostprocessor(), kind='post'),
    'maxpp': C(T + 'postprocessing', lambda c, m: m.MaxPostprocessor(), kind='post'),
    'medpp': C(T + 'postprocessing', lambda c, m: m.MedianPostprocessor(), kind='post'),
    'zpp': C(T + 'postprocessing', lambda c, m: m.ZScorePostprocessor(), kind='post', symfit=False, first=2),
    'ravgpp': C(T + 'postprocessing', lambda c, m: m.RunningAveragePostprocessor(3), kind='post'),
    'rmaxpp': C(T + 'postprocessing', lambda c, m: m.RunningMaxPostprocessor(3), kind='post'),
    'rmedpp': C(T + 'postprocessing', lambda c, m: m.RunningMedianPostprocessor(3), kind='post'),
    'rzpp': C(T + 'postprocessing', lambda c, m: m.RunningZScorePostprocessor(3), kind='post', symfit=False, first=2),
    'conf': C(T + 'probability_calibration', lambda c, m: m.ConformalProbabilityCalibrator(window_size=3), kind='post'),
    'confall': C(T + 'probability_calibration', lambda c, m: m.ConformalProbabilityCalibrator(windowed=False), kind='post'),
    'gauss': C(T + 'probability_calibration', lambda c, m: m.GaussianTailProbabilityCalibrator(window_size=3), kind='post', symfit=False, first=2),
    'gaussall': C(T + 'probability_calibration', lambda c, m: m.GaussianTailProbabilityCalibrator(running_statistics=False), kind='post', symfit=False, first=2),
    'avgens': C(T + 'ensemble', lambda c, m: m.AverageScoreEnsembler(), d=3, kind='ens', first=0),
    'maxens': C(T + 'ensemble', lambda c, m: m.MaximumScoreEnsembler(), d=3, kind='ens', first=0),
    'medens': C(T + 'ensemble', lambda c, m: m.MedianScoreEnsembler(), d=3, kind='ens', first=0),
}
for _n, _f in (('AverageMeter', 1), ('CountMeter', 0), ('MaxMeter', 1), ('MedianMeter', 1), ('MinMeter', 1), ('SumMeter', 0), ('SumSquaresMeter', 0), ('VarianceMeter', 1)):
    TABLE[_n] = C(S, lambda c, m, n=_n: getattr(m, n)(), kind='stat', first=_f)
    TABLE['Abs' + _n] = C(S, lambda c, m, n=_n: m.AbsStatistic(getattr(m, n)), kind='stat', first=_f)
    TABLE['Run' + _n] = C(S, lambda c, m, n=_n: m.RunningStatistic(getattr(m, n), 3), kind='stat', first=_f)
for _n in ('PrecisionMetric', 'RecallMetric', 'AUROCMetric', 'AUPRMetric'):
    TABLE[_n] = C('pysad.evaluation', lambda c, m, n=_n: getattr(m, n)(), kind='metric', first=2, lo=0, hi=1, n=4, labels=True)
    TABLE['Win' + _n] = C('pysad.evaluation', lambda c, m, n=_n: m.WindowedMetric(getattr(m, n), 2, ignore_nonempty_last=False), kind='metric', first=2, lo=0, hi=1, n=6, labels=True, step=2)
GROUPS = [[k] for k in TABLE]
# histories that end inside the first block / before the window is full
TABLE['hst_first'] = C(M + 'half_space_trees', lambda c, m: m.HalfSpaceTrees(*_unit(c, 2), window_size=9, num_trees=2, max_depth=2), d=2, lo=0, hi=1, symfit=False, first=0)
TABLE['hst_init'] = C(M + 'half_space_trees', lambda c, m: m.HalfSpaceTrees(*_unit(c, 2), window_size=3, num_trees=2, max_depth=3, initial_window_X=c.array([[0.2, 0.9], [0.7, 0.3], [0.4, 0.6]], float)), d=2, lo=0, hi=1, symfit=False, first=0)
TABLE['xstream_first'] = C(M + 'xstream', lambda c, m: m.xStream(num_components=3, n_chains=2, depth=2, window_size=9), d=3, n=4, lo=-2, hi=2, symfit=False)
TABLE['storm_full'] = C(M + 'exact_storm', lambda c, m: m.ExactStorm(window_size=4, max_radius=2.0), d=2, n=7, lo=0, hi=3, symfit=False)
TABLE['storm_long'] = C(M + 'exact_storm', lambda c, m: m.ExactStorm(window_size=20, max_radius=2.0), d=2, n=7, symfit=False)
TABLE['rrcf_first'] = C(M + 'robust_random_cut_forest', lambda c, m: m.RobustRandomCutForest(num_trees=2, tree_size=20), d=2, n=5, symfit=False)
TABLE['kitnet_grace'] = C(M + 'kitnet', lambda c, m: m.KitNet(max_size_ae=2, grace_feature_mapping=3, grace_anomaly_detector=9), d=3, n=6, symfit=False, quiet=True, lo=0, hi=1)
TABLE['refwin_init'] = C(M + 'integrations.reference_window_model', lambda c, m: m.ReferenceWindowModel(Det(c), 4, 3, initial_window_X=_init(c)), d=2, n=4, first=0)
TABLE['aomens'] = C(T + 'ensemble', lambda c, m: m.AverageOfMaximumScoreEnsembler(n_buckets=2), d=4, n=2, kind='ens', first=0, symfit=False)
TABLE['moaens'] = C(T + 'ensemble', lambda c, m: m.MaximumOfAverageScoreEnsembler(n_buckets=2), d=4, n=2, kind='ens', first=0, symfit=False)
TABLE['random'] = C(M + 'random_model', lambda c, m: m.RandomModel(), d=2, n=3, first=0)
TABLE['perfect'] = C(M + 'perfect_model', lambda c, m: m.PerfectModel(), d=2, n=3, first=1, labels=True)
RANDOM_READS = ('knncad', 'random', 'perfect', 'aomens', 'moaens')
TABLE['perfect'].pops = True

# the same components with other parameters (another instance that may be around, C30)
ALT = {
    'storm': C(M + 'exact_storm', lambda c, m: m.ExactStorm(window_size=5, max_radius=50.0), d=2),
    'hst': C(M + 'half_space_trees', lambda c, m: m.HalfSpaceTrees(*_unit(c, 2), window_size=3, num_trees=3, max_depth=3), d=2, lo=0, hi=1),
    'iforest': C(M + 'iforest_asd', lambda c, m: m.IForestASD(window_size=3, n_estimators=7), d=2, first=2),
    'iforest_init': C(M + 'iforest_asd', lambda c, m: m.IForestASD(initial_window_X=_init(c, 2, 5), window_size=3), d=2, first=0),
    'kitnet': C(M + 'kitnet', lambda c, m: m.KitNet(max_size_ae=1, grace_feature_mapping=1, grace_anomaly_detector=1, learning_rate=0.9, hidden_ratio=0.4), d=3, n=9, quiet=True, lo=0, hi=1),
    'knncad': C(M + 'knn_cad', lambda c, m: m.KNNCAD(60), n=60, first=0),
    'loda': C(M + 'loda', lambda c, m: m.LODA(num_bins=6, num_random_cuts=3), d=4, n=3),
    'loop': C(M + 'loop', lambda c, m: m.LocalOutlierProbability(_init(c, 2, 6), num_neighbors=3, extent=1), d=2, first=0),
    'mad': C(M + 'median_absolute_deviation', lambda c, m: m.MedianAbsoluteDeviation(absolute=False, b=3.0), n=4),
    'relent': C(M + 'relative_entropy', lambda c, m: m.RelativeEntropy(-30.0, 30.0, num_bins=4, window_size=2), n=7, lo=-20, hi=20),
    'rrcf': C(M + 'robust_random_cut_forest', lambda c, m: m.RobustRandomCutForest(num_trees=1, tree_size=2), d=2, n=5),
    'rshash': C(M + 'rs_hash', lambda c, m: m.RSHash(*_unit(c, 2), sampling_points=9, decay=0.5, num_components=3, num_hash_fns=2), d=2, n=3, lo=0, hi=1),
    'sesd': C(M + 'seasonal_esd', lambda c, m: m.SeasonalESD(3, 7, 2, alpha=0.2), n=6, first=1),
    'shesd': C(M + 'seasonal_esd', lambda c, m: m.SeasonalHybridESD(3, 7, 2, alpha=0.2), n=6, first=1),
    'sad': C(M + 'standard_absolute_deviation', lambda c, m: m.StandardAbsoluteDeviation('median', False), n=4),
    'sad_med': C(M + 'standard_absolute_deviation', lambda c, m: m.StandardAbsoluteDeviation('mean', True), n=4),
    'xstream': C(M + 'xstream', lambda c, m: m.xStream(num_components=3, n_chains=3, depth=3, window_size=3), d=3, n=5, lo=-2, hi=2),
    'onefit': C(M + 'integrations.one_fit_model', lambda c, m: m.OneFitModel(Det(c), _init(c, 2, 5), contamination=0.2), d=2, first=0),
    'refwin': C(M + 'integrations.reference_window_model', lambda c, m: m.ReferenceWindowModel(Det(c), 4, 3, contamination=0.2), d=2, n=6, first=4, labels=True),
    'streamhash': C(T + 'projection.streamhash_projector', lambda c, m: m.StreamhashProjector(3, density=0.99), d=2, kind='trans', first=0),
    'grp': C(T + 'projection.random_projector', lambda c, m: m.GaussianRandomProjector(2, eps=0.5), d=3, kind='trans'),
    'srp': C(T + 'projection.random_projector', lambda c, m: m.SparseRandomProjector(2, density=0.3), d=3, kind='trans'),
    'unit': C(T + 'preprocessing.instance_unit_norm_scaler', lambda c, m: m.InstanceUnitNormScaler(pow=1), d=2, kind='trans', lo=1, hi=5, first=0),
    'unit1': C(T + 'preprocessing.instance_unit_norm_scaler', lambda c, m: m.InstanceUnitNormScaler(pow=2), d=2, kind='trans', lo=1, hi=5, first=0),
    'stl': C(T + 'preprocessing.modified_stl_residual', lambda c, m: m.ModifiedSTLResidualTransformer(3, 6, robust=False), kind='trans', n=7),
    'season': C(T + 'preprocessing.seasonal_trend_decomposer', lambda c, m: m.SeasonalTrendDecomposer(3, 2), d=2, n=7, kind='trans'),
    'ravgpp': C(T + 'postprocessing', lambda c, m: m.RunningAveragePostprocessor(2), kind='post'),
    'rmaxpp': C(T + 'postprocessing', lambda c, m: m.RunningMaxPostprocessor(2), kind='post'),
    'rmedpp': C(T + 'postprocessing', lambda c, m: m.RunningMedianPostprocessor(2), kind='post'),
    'rzpp': C(T + 'postprocessing', lambda c, m: m.RunningZScorePostprocessor(4), kind='post', first=2),
    'conf': C(T + 'probability_calibration', lambda c, m: m.ConformalProbabilityCalibrator(window_size=5), kind='post'),
    'confall': C(T + 'probability_calibration', lambda c, m: m.ConformalProbabilityCalibrator(window_size=2), kind='post'),
    'gauss': C(T + 'probability_calibration', lambda c, m: m.GaussianTailProbabilityCalibrator(window_size=2), kind='post', first=2),
    'gaussall': C(T + 'probability_calibration', lambda c, m: m.GaussianTailProbabilityCalibrator(window_size=2), kind='post', first=2),
    'avgens': C(T + 'ensemble', lambda c, m: m.AverageScoreEnsembler(c.array([[1.0, 2.0, 5.0]], float)), d=3, kind='ens', first=0),
    'aomens': C(T + 'ensemble', lambda c, m: m.AverageOfMaximumScoreEnsembler(n_buckets=4), d=4, n=2, kind='ens', first=0),
    'moaens': C(T + 'ensemble', lambda c, m: m.MaximumOfAverageScoreEnsembler(n_buckets=4), d=4, n=2, kind='ens', first=0),
}
for _n, _f in (('AverageMeter', 1), ('CountMeter', 0), ('MaxMeter', 1), ('MedianMeter', 1), ('MinMeter', 1), ('SumMeter', 0), ('SumSquaresMeter', 0), ('VarianceMeter', 1)):
    ALT['Run' + _n] = C(S, lambda c, m, n=_n: m.RunningStatistic(getattr(m, n), 2), kind='stat', first=_f)
for _n in ('PrecisionMetric', 'RecallMetric', 'AUROCMetric', 'AUPRMetric'):
    ALT['Win' + _n] = C('pysad.evaluation', lambda c, m, n=_n: m.WindowedMetric(getattr(m, n), 4), kind='metric', first=2, lo=0, hi=1, n=6, labels=True, step=2)
