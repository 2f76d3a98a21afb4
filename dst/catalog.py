"""Every public component of pysad as a simulated node: how to configure, build and drive it.

All driving goes through the documented public methods only."""
import numpy as np

from . import stubs, world
from .kernel import canon, Cancelled, NoProgress


class Comp:
    family = "model"
    min_fit = 0          # reads are in the documented domain only after this many fits
    uses_rng = False     # draws from the process-wide generators
    rng_read = False     # ... also when reading
    labels = False       # fit takes a label
    cost = 0.2           # milliseconds per operation, roughly
    pickle = True
    lim = None           # values are kept inside this range
    threads = True       # may run under the line-preemptive scheduler
    weight = 1.0
    scalar_x = False     # instances are numbers, not vectors
    batch = True

    def __init__(self, name):
        self.name = name

    def params(self, rng):
        return dict(d=1)

    def make(self, p):
        raise NotImplementedError

    # --- driving -----------------------------------------------------------
    def x(self, x):
        if self.scalar_x:
            return np.float64(x[0] if isinstance(x, list) else x)
        return np.array(x, dtype=np.float64)

    def fit(self, o, x, y):
        if self.family == "model":
            return o.fit_partial(x, y)
        return o.fit_partial(x)

    def read(self, o, x):
        return o.score_partial(x) if self.family == "model" else o.transform_partial(x)

    def fitread(self, o, x, y):
        if self.family == "model":
            return o.fit_score_partial(x, y)
        return o.fit_transform_partial(x)

    # --- windows -------------------------------------------------------------
    def horizon(self, p):
        """Number of fits after which an instance can no longer matter (None: never forgets)."""
        return None

    def saturation(self, p):
        """Number of fits after which memory may not grow any more (None: grows by design)."""
        h = self.horizon(p)
        return None if h is None else h + 2

    def script(self, rng, p, n, net=None, **kw):
        kw.setdefault("lim", self.lim)
        return world.script(rng, p["d"], n, labels=self.labels, net=net, **kw)


REG = {}


def reg(cls):
    c = cls(cls.__name__.rstrip("_"))
    REG[c.name] = c
    return cls


def _dims(rng, hi=4):
    return rng.wpick([(1, 2), (2, 3), (3, 2), (hi, 1), (rng.int(hi + 1, 20), 0.5)])


def _win(rng, lo, hi):
    """A window size: mostly small, so that it fills and slides often, sometimes larger."""
    return rng.int(lo, hi) if rng.chance(0.93) else rng.int(hi + 1, 4 * hi)


# ------------------------------------------------------------------ models
@reg
class ExactStorm(Comp):
    def params(self, rng):
        return dict(d=_dims(rng), w=_win(rng, 1, 14), r=rng.pick([0.3, 1.07, 2.6, 0.013]))

    def make(self, p):
        from pysad.models import ExactStorm as C
        return C(window_size=p["w"], max_radius=p["r"])

    def horizon(self, p):
        return p["w"] + 1


@reg
class HalfSpaceTrees(Comp):
    uses_rng = True

    def params(self, rng):
        d = _dims(rng)
        return dict(d=d, mins=[-8.0 - j for j in range(d)], maxes=[9.0 + j for j in range(d)],
                    w=_win(rng, 1, 9), nt=rng.int(1, 4) if rng.chance(0.95) else rng.int(5, 12),
                    depth=rng.wpick([(rng.int(0, 4), 94), (rng.int(5, 7), 5), (rng.int(8, 10), 1)]))

    def make(self, p):
        from pysad.models import HalfSpaceTrees as C
        return C(feature_mins=np.asarray(p["mins"]), feature_maxes=np.asarray(p["maxes"]), window_size=p["w"],
                 num_trees=p["nt"], max_depth=p["depth"])

    def horizon(self, p):
        return 2 * p["w"]


@reg
class RSHash(Comp):
    uses_rng = True
    min_fit = 1

    def params(self, rng):
        d = _dims(rng)
        return dict(d=d, mins=[-8.0] * d, maxes=[9.0] * d, s=rng.int(2, 20), decay=rng.pick([0.015, 0.1, 0.5]),
                    m=rng.int(1, 5), nh=rng.int(1, 2))

    def make(self, p):
        from pysad.models import RSHash as C
        return C(feature_mins=np.asarray(p["mins"]), feature_maxes=np.asarray(p["maxes"]), sampling_points=p["s"],
                 decay=p["decay"], num_components=p["m"], num_hash_fns=p["nh"])


@reg
class xStream(Comp):
    uses_rng = True

    def params(self, rng):
        return dict(d=_dims(rng), k=rng.int(1, 5), nc=rng.int(1, 4), depth=rng.int(1, 5), w=_win(rng, 1, 9))

    def make(self, p):
        from pysad.models import xStream as C
        return C(num_components=p["k"], n_chains=p["nc"], depth=p["depth"], window_size=p["w"])

    def horizon(self, p):
        return 3 * p["w"]


@reg
class RobustRandomCutForest(Comp):
    uses_rng = True
    rng_read = True
    min_fit = 1
    cost = 0.8

    def params(self, rng):
        return dict(d=_dims(rng), nt=rng.int(1, 3), w=_win(rng, 2, 10))

    def make(self, p):
        from pysad.models import RobustRandomCutForest as C
        return C(num_trees=p["nt"], shingle_size=4, tree_size=p["w"])

    def horizon(self, p):
        return p["w"]


@reg
class LODA(Comp):
    uses_rng = True
    min_fit = 1

    def params(self, rng):
        return dict(d=_dims(rng), nb=rng.int(2, 10), nc=rng.int(1, 6))

    def make(self, p):
        from pysad.models import LODA as C
        return C(num_bins=p["nb"], num_random_cuts=p["nc"])

    def saturation(self, p):
        return 2


@reg
class KitNet(Comp):
    min_fit = 1

    def params(self, rng):
        return dict(d=rng.int(1, 6), m=rng.int(1, 4), fm=rng.pick([None, 1, 2, 3, 5, 9]), ad=rng.int(1, 12),
                    lr=rng.pick([0.1, 0.3]), hr=rng.pick([0.75, 0.5]))

    def make(self, p):
        from pysad.models import KitNet as C
        return C(max_size_ae=p["m"], grace_feature_mapping=p["fm"], grace_anomaly_detector=p["ad"],
                 learning_rate=p["lr"], hidden_ratio=p["hr"])

    def saturation(self, p):
        return 2 * p["ad"] + 15


@reg
class KNNCAD(Comp):
    min_fit = 1
    cost = 1.2
    weight = 0.6
    long_min = 60

    def params(self, rng):
        return dict(d=1, pp=rng.int(48, 64))

    def make(self, p):
        from pysad.models import KNNCAD as C
        return C(probationary_period=p["pp"])

    def horizon(self, p):
        return 5 * p["pp"]

    def saturation(self, p):
        return 2 * p["pp"] + 5

    def script(self, rng, p, n, net=None, **kw):
        n = max(n, rng.int(60, 150)) if rng.chance(0.7) else n
        return super().script(rng, p, n, net, **kw)


@reg
class MedianAbsoluteDeviation(Comp):
    min_fit = 1

    def params(self, rng):
        return dict(d=1, a=rng.chance(0.5), b=rng.pick([1.4826, 1.0]))

    def make(self, p):
        from pysad.models import MedianAbsoluteDeviation as C
        return C(absolute=p["a"], b=p["b"])


@reg
class StandardAbsoluteDeviation(Comp):
    min_fit = 1

    def params(self, rng):
        return dict(d=1, s=rng.pick(["mean", "median"]), a=rng.chance(0.5))

    def make(self, p):
        from pysad.models import StandardAbsoluteDeviation as C
        return C(substracted_statistic=p["s"], absolute=p["a"])


@reg
class RelativeEntropy(Comp):
    lim = (-7.9, 8.9)

    def params(self, rng):
        return dict(d=1, lo=-8.03, hi=9.01, nb=rng.int(2, 6), w=_win(rng, 2, 12))

    def make(self, p):
        from pysad.models import RelativeEntropy as C
        return C(min_val=p["lo"], max_val=p["hi"], num_bins=p["nb"], window_size=p["w"])

    def saturation(self, p):
        return p["w"] + 2


def _stl_kw(rng):
    return rng.wpick([({}, 4), (dict(seasonal=rng.pick([3, 9, 13])), 1), (dict(seasonal_deg=0), 0.5), (dict(trend=rng.pick([9, 15]), trend_deg=0), 0.5)])


def _stl_params(rng):
    per = rng.int(2, 4)
    w = 2 * per + rng.int(0, 6)
    return per, w


@reg
class SeasonalESD(Comp):
    cost = 2.5
    weight = 0.7

    def params(self, rng):
        per, w = _stl_params(rng)
        return dict(d=1, per=per, w=w, k=rng.int(1, max(1, int(w * 0.49))), alpha=rng.pick([0.05, 0.2, 0.5]),
                    robust=rng.chance(0.3), kw=_stl_kw(rng))

    def make(self, p):
        from pysad.models import SeasonalESD as C
        return C(period=p["per"], window_size=p["w"], max_anomalies=p["k"], alpha=p["alpha"], robust=p["robust"], **p.get("kw", {}))

    def horizon(self, p):
        return p["w"]


@reg
class SeasonalHybridESD(SeasonalESD):
    def make(self, p):
        from pysad.models import SeasonalHybridESD as C
        return C(period=p["per"], window_size=p["w"], max_anomalies=p["k"], alpha=p["alpha"], robust=p["robust"], **p.get("kw", {}))


@reg
class LocalOutlierProbability(Comp):
    cost = 0.6
    weight = 0.4

    def params(self, rng):
        d = rng.int(1, 3)
        n = rng.int(6, 12)
        return dict(d=d, X=[[rng.gauss(0, 1) for _ in range(d)] for _ in range(n)], k=rng.int(2, 4), ext=rng.int(1, 3))

    def make(self, p):
        from pysad.models import LocalOutlierProbability as C
        return C(initial_X=np.asarray(p["X"]), num_neighbors=p["k"], extent=p.get("ext", 3))

    def saturation(self, p):
        return 1


@reg
class NullModel(Comp):
    weight = 0.3

    def params(self, rng):
        return dict(d=_dims(rng))

    def make(self, p):
        from pysad.models import NullModel as C
        return C()

    def saturation(self, p):
        return 1


@reg
class RandomModel(NullModel):
    uses_rng = True
    rng_read = True

    def make(self, p):
        from pysad.models import RandomModel as C
        return C()


@reg
class PerfectModel(Comp):
    labels = True
    weight = 0.4

    def params(self, rng):
        return dict(d=_dims(rng))

    def make(self, p):
        from pysad.models import PerfectModel as C
        return C()

    def script(self, rng, p, n, net=None, **kw):
        # a score consumes a label: keep scores <= fits
        ev, lost = super().script(rng, p, n, net, **kw)
        return ev, lost


@reg
class ReferenceWindowModel(Comp):
    min_fit = 1

    def params(self, rng):
        d = _dims(rng)
        w = _win(rng, 2, 9)
        lab = rng.chance(0.4)
        init = None
        if rng.chance(0.5):
            n = rng.int(1, 2 * w)
            init = dict(X=[[rng.int(-40, 40) / 8.0 for _ in range(d)] for _ in range(n)],
                        y=[float(rng.chance(0.5)) for _ in range(n)] if lab and rng.chance(0.8) else None)
        return dict(d=d, w=w, s=rng.int(1, w + 3), init=init, lab=lab, scale=rng.pick([1.0, 2.0]),
                    bias=rng.pick([0.0, 0.5]))

    def make(self, p):
        from pysad.models.integrations import ReferenceWindowModel as C
        kw = {}
        if p["init"]:
            kw["initial_window_X"] = np.asarray(p["init"]["X"])
            if p["init"]["y"] is not None:
                kw["initial_window_y"] = np.asarray(p["init"]["y"])
        return C(model_cls=stubs.Mini, window_size=p["w"], sliding_size=p["s"], scale=p["scale"], bias=p["bias"], **kw)

    def fit(self, o, x, y):
        return o.fit_partial(x, y)

    def horizon(self, p):
        return p["w"] + 2 * p["s"] + 2

    def script(self, rng, p, n, net=None, **kw):
        ev, lost = world.script(rng, p["d"], n, labels=p["lab"], net=net, lim=self.lim, **kw)
        return ev, lost


@reg
class ReferenceWindowKNN(Comp):
    """The same wrapper around a real PyOD detector."""
    cost = 1.5
    weight = 0.4

    def params(self, rng):
        d = rng.int(1, 3)
        w = rng.int(4, 8)
        return dict(d=d, w=w, s=rng.int(2, w), k=rng.int(1, 2),
                    init=[[rng.gauss(0, 1) for _ in range(d)] for _ in range(rng.int(4, 10))])

    def make(self, p):
        from pysad.models.integrations import ReferenceWindowModel as C
        from pyod.models.knn import KNN
        return C(model_cls=KNN, window_size=p["w"], sliding_size=p["s"], initial_window_X=np.asarray(p["init"]),
                 n_neighbors=p["k"])

    def horizon(self, p):
        return p["w"] + 2 * p["s"] + 2


@reg
class OneFitModel(Comp):
    def params(self, rng):
        d = _dims(rng)
        n = rng.int(1, 8)
        return dict(d=d, X=[[rng.int(-40, 40) / 8.0 for _ in range(d)] for _ in range(n)],
                    y=[float(rng.chance(0.5)) for _ in range(n)] if rng.chance(0.5) else None,
                    scale=rng.pick([1.0, 2.0]), bias=rng.pick([0.0, 0.5]))

    def make(self, p):
        from pysad.models.integrations import OneFitModel as C
        return C(model_cls=stubs.Mini, initial_X=np.asarray(p["X"]),
                 initial_y=None if p["y"] is None else np.asarray(p["y"]), scale=p["scale"], bias=p["bias"])

    def saturation(self, p):
        return 1


@reg
class IForestASD(Comp):
    uses_rng = True
    min_fit = 1
    cost = 12.0
    weight = 0.15

    def params(self, rng):
        return dict(d=rng.int(1, 3), w=rng.int(3, 6),
                    init=[[rng.gauss(0, 1) for _ in range(3)] for _ in range(6)] if rng.chance(0.6) else None)

    def make(self, p):
        from pysad.models import IForestASD as C
        init = None if p["init"] is None else np.asarray(p["init"])[:, :p["d"]]
        return C(initial_window_X=init, window_size=p["w"], n_estimators=2, n_jobs=1)

    def script(self, rng, p, n, net=None, **kw):
        return super().script(rng, p, min(n, 10), net, **kw)


@reg
class Inqmad(Comp):
    min_fit = 1
    cost = 60.0
    weight = 0.0       # only where asked for explicitly
    threads = False

    def params(self, rng):
        return dict(d=2, k=4, g=1.0, rs=rng.int(1, 50))

    def make(self, p):
        from pysad.models import Inqmad as C
        return C(input_shape=p["d"], dim_x=p["k"], gamma=p["g"], random_state=p["rs"])


# ------------------------------------------------------------------ transformers
class Tr(Comp):
    family = "transformer"

    def saturation(self, p):
        return 2


@reg
class IdentityScaler(Tr):
    weight = 0.3

    def params(self, rng):
        return dict(d=_dims(rng))

    def make(self, p):
        from pysad.transform.preprocessing import IdentityScaler as C
        return C()


@reg
class InstanceStandardScaler(IdentityScaler):
    def make(self, p):
        from pysad.transform.preprocessing import InstanceStandardScaler as C
        return C()


@reg
class InstanceUnitNormScaler(IdentityScaler):
    def params(self, rng):
        return dict(d=_dims(rng), pow=rng.pick([1, 2, 3]))

    def make(self, p):
        from pysad.transform.preprocessing import InstanceUnitNormScaler as C
        return C(pow=p["pow"])


@reg
class SeasonalTrendDecomposer(Tr):
    def params(self, rng):
        return dict(d=_dims(rng), s=rng.int(1, 6), w=rng.pick([None, 1, 2, 3, 5, 8]))

    def make(self, p):
        from pysad.transform.preprocessing import SeasonalTrendDecomposer as C
        return C(season_length=p["s"], trend_window=p["w"])

    def saturation(self, p):
        return (p["w"] or p["s"]) + 2


@reg
class ModifiedSTLResidualTransformer(Tr):
    cost = 2.0
    weight = 0.7

    def params(self, rng):
        per, w = _stl_params(rng)
        return dict(d=1, per=per, w=w, robust=rng.chance(0.3), kw=_stl_kw(rng))

    def make(self, p):
        from pysad.transform.preprocessing import ModifiedSTLResidualTransformer as C
        return C(period=p["per"], window_size=p["w"], robust=p["robust"], **p.get("kw", {}))

    def horizon(self, p):
        return p["w"]

    def saturation(self, p):
        return p["w"] + 2


class _Proj(Tr):
    uses_rng = True

    def params(self, rng):
        return dict(d=rng.int(1, 6), k=rng.int(1, 4))


@reg
class GaussianRandomProjector(_Proj):
    cost = 0.4

    def make(self, p):
        from pysad.transform.projection import GaussianRandomProjector as C
        return C(num_components=p["k"])


@reg
class SparseRandomProjector(_Proj):
    cost = 0.4

    def params(self, rng):
        return dict(super().params(rng), dens=rng.pick(["auto", "auto", 0.5, 1.0]))

    def make(self, p):
        from pysad.transform.projection import SparseRandomProjector as C
        return C(num_components=p["k"], density=p.get("dens", "auto"))


@reg
class StreamhashProjector(_Proj):
    uses_rng = False

    def params(self, rng):
        return dict(d=rng.int(1, 6), k=rng.int(1, 5), dens=rng.pick([1 / 3.0, 0.9, 0.5]))

    def make(self, p):
        from pysad.transform.projection import StreamhashProjector as C
        return C(num_components=p["k"], density=p["dens"])


# ------------------------------------------------------------------ postprocessors and calibrators
class Post(Comp):
    family = "post"
    scalar_x = True
    min_fit = 1
    cost = 0.05
    mod = "postprocessing"

    def params(self, rng):
        return dict(d=1)

    def make(self, p):
        import pysad.transform.postprocessing as m
        return getattr(m, self.name)()


for _n in ("AveragePostprocessor", "MaxPostprocessor", "MedianPostprocessor", "ZScorePostprocessor"):
    REG[_n] = type(_n, (Post,), {})(_n)
REG["AveragePostprocessor"].saturation = lambda p: 2
REG["ZScorePostprocessor"].saturation = lambda p: 2


class RPost(Post):
    def params(self, rng):
        return dict(d=1, w=_win(rng, 1, 12))

    def make(self, p):
        import pysad.transform.postprocessing as m
        return getattr(m, self.name)(window_size=p["w"])

    def horizon(self, p):
        return p["w"]


for _n in ("RunningAveragePostprocessor", "RunningMaxPostprocessor", "RunningMedianPostprocessor",
           "RunningZScorePostprocessor"):
    REG[_n] = type(_n, (RPost,), {})(_n)


@reg
class ConformalProbabilityCalibrator(Post):
    def params(self, rng):
        return dict(d=1, win=rng.chance(0.7), w=_win(rng, 1, 12))

    def make(self, p):
        from pysad.transform.probability_calibration import ConformalProbabilityCalibrator as C
        return C(windowed=p["win"], window_size=p["w"])

    def horizon(self, p):
        return p["w"] if p["win"] else None


@reg
class GaussianTailProbabilityCalibrator(Post):
    def params(self, rng):
        return dict(d=1, run=rng.chance(0.7), w=_win(rng, 1, 12))

    def make(self, p):
        from pysad.transform.probability_calibration import GaussianTailProbabilityCalibrator as C
        return C(running_statistics=p["run"], window_size=p["w"])

    def horizon(self, p):
        return p["w"] if p["run"] else None

    def saturation(self, p):
        return p["w"] + 2 if p["run"] else 2


class Ens(Comp):
    family = "post"
    cost = 0.1
    weight = 0.3

    def params(self, rng):
        nb = rng.int(2, 3)
        d = nb * rng.int(1, 2)
        p = dict(d=d, nb=nb)
        if self.name == "AverageScoreEnsembler" and rng.chance(0.4):
            p["wts"] = [rng.int(1, 8) / 4.0 for _ in range(d)]
        return p

    def make(self, p):
        import pysad.transform.ensemble as m
        if self.name in ("AverageOfMaximumScoreEnsembler", "MaximumOfAverageScoreEnsembler"):
            return getattr(m, self.name)(n_buckets=p["nb"], method=p.get("method", "static"))
        if p.get("wts"):
            return getattr(m, self.name)(estimator_weights=np.array([p["wts"]]))
        return getattr(m, self.name)()

    def saturation(self, p):
        return 1


for _n in ("AverageScoreEnsembler", "MaximumScoreEnsembler", "MedianScoreEnsembler",
           "AverageOfMaximumScoreEnsembler", "MaximumOfAverageScoreEnsembler"):
    REG[_n] = type(_n, (Ens,), {})(_n)
for _n in ("AverageOfMaximumScoreEnsembler", "MaximumOfAverageScoreEnsembler"):
    REG[_n].uses_rng = True
    REG[_n].rng_read = True


# ------------------------------------------------------------------ statistics
METERS = ("AverageMeter", "CountMeter", "MaxMeter", "MedianMeter", "MinMeter", "SumMeter", "SumSquaresMeter",
          "VarianceMeter")


class Stat(Comp):
    family = "stat"
    scalar_x = True
    min_fit = 1
    cost = 0.03
    batch = False

    def x(self, x):
        return float(x[0] if isinstance(x, list) else x)

    def make(self, p):
        import pysad.statistics as m
        return getattr(m, self.name)()

    def fit(self, o, x, y):
        return o.update(x)

    def read(self, o, x):
        return o.get()

    def fitread(self, o, x, y):
        return o.update(x).get()

    def saturation(self, p):
        return None if self.name in ("MaxMeter", "MinMeter", "MedianMeter") else 2


for _n in METERS:
    REG[_n] = type(_n, (Stat,), {})(_n)


@reg
class AbsStatistic(Stat):
    def params(self, rng):
        return dict(d=1, m=rng.pick(METERS))

    def make(self, p):
        import pysad.statistics as m
        return m.AbsStatistic(getattr(m, p["m"]))

    def saturation(self, p):
        return None if p["m"] in ("MaxMeter", "MinMeter", "MedianMeter") else 2


@reg
class RunningStatistic(Stat):
    def params(self, rng):
        return dict(d=1, m=rng.pick(METERS + ("AbsStatistic",)), inner=rng.pick(METERS), w=_win(rng, 1, 12))

    def make(self, p):
        import pysad.statistics as m
        if p["m"] == "AbsStatistic":
            return m.RunningStatistic(_AbsOf(p["inner"]), p["w"])
        return m.RunningStatistic(getattr(m, p["m"]), p["w"])

    def horizon(self, p):
        return p["w"]


class _AbsOf:
    """A picklable zero-argument factory of AbsStatistic(inner)."""

    def __init__(self, inner):
        self.inner = inner

    def __call__(self):
        import pysad.statistics as m
        return m.AbsStatistic(getattr(m, self.inner))


class Win(Comp):
    family = "window"
    scalar_x = True
    cost = 0.02
    batch = False
    weight = 0.5

    def x(self, x):
        return float(x[0] if isinstance(x, list) else x)

    def fit(self, o, x, y):
        o.update(x)
        return o

    def read(self, o, x):
        return list(o.get())

    def fitread(self, o, x, y):
        o.update(x)
        return list(o.get())


@reg
class Window(Win):
    def params(self, rng):
        return dict(d=1, w=_win(rng, 1, 12))

    def make(self, p):
        from pysad.utils.window import Window as C
        return C(p["w"])

    def horizon(self, p):
        return p["w"]


@reg
class UnlimitedWindow(Win):
    def make(self, p):
        from pysad.utils.window import UnlimitedWindow as C
        return C()


# ------------------------------------------------------------------ metrics
METRICS = ("PrecisionMetric", "RecallMetric", "AUROCMetric", "AUPRMetric")


class Metric(Comp):
    family = "metric"
    min_fit = 1
    labels = True
    cost = 0.8
    batch = False
    weight = 0.6

    def binary(self, p):
        return self.name in ("PrecisionMetric", "RecallMetric")

    def params(self, rng):
        return dict(d=1)

    def make(self, p):
        import pysad.evaluation as m
        return getattr(m, self.name)()

    def x(self, x):
        return float(x[0])

    def fit(self, o, x, y):
        o.update(y, x)
        return o

    def read(self, o, x):
        return o.get()

    def fitread(self, o, x, y):
        o.update(y, x)
        return o.get()

    def script(self, rng, p, n, net=None, **kw):
        ev, lost = super().script(rng, p, n, net, **kw)
        if self.binary(p):
            for e in ev:
                e["x"] = [float(e["x"][0] > 0)]
        return ev, lost


for _n in METRICS:
    REG[_n] = type(_n, (Metric,), {})(_n)


@reg
class WindowedMetric(Metric):
    def binary(self, p):
        return p["m"] in ("PrecisionMetric", "RecallMetric")

    def params(self, rng):
        return dict(d=1, m=rng.pick(METRICS), w=_win(rng, 2, 9), ign=rng.chance(0.5))

    def make(self, p):
        import pysad.evaluation as m
        return m.WindowedMetric(getattr(m, p["m"]), p["w"], ignore_nonempty_last=p["ign"])

    def saturation(self, p):
        return p["w"] + 1


NAMES = sorted(REG)


def choose(rng, pred=lambda c: True, boost=None):
    cand = [(c, c.weight * (boost(c) if boost else 1.0)) for n, c in sorted(REG.items()) if c.weight > 0 and pred(c)]
    return rng.wpick(cand)


def length(rng, comp, budget_ms=60.0, lo=3):
    """Swarm: mostly short streams, sometimes long ones, within a cost budget."""
    cap = max(lo, int(budget_ms / comp.cost))
    n = rng.wpick([(rng.int(lo, 12), 4), (rng.int(10, 40), 4), (rng.int(40, 160), 1.5), (rng.int(160, 1100), 0.06)])
    return min(n, cap)


# ------------------------------------------------------------------ sessions
class Session:
    """Applies events to one component object, keeping only its own bookkeeping of the documented domain."""

    def __init__(self, comp, params, obj=None, build=True):
        self.comp, self.p = comp, params
        self.nfit = 0
        self.pending = 0       # PerfectModel: labels not yet consumed
        self.obj = obj
        self.err = None
        if build and obj is None:
            try:
                self.obj = comp.make(params)
            except (Cancelled, NoProgress):
                raise
            except BaseException as e:
                self.err = "%s" % type(e).__name__

    def allowed(self, op):
        c = self.comp
        if op == "read":
            if c.name == "PerfectModel":
                return self.pending >= 1
            if c.name == "ReferenceWindowModel" and self.p.get("init") is not None:
                return True
            if c.name == "IForestASD" and self.p.get("init") is not None:
                return True
            return self.nfit >= c.min_fit
        return True

    def account(self, op):
        if op in ("fit", "fitread"):
            self.nfit += 1
            self.pending += 1
        if op in ("read", "fitread"):
            self.pending -= 1

    def raw(self, op, x, y):
        c = self.comp
        if op == "fit":
            return c.fit(self.obj, x, y)
        if op == "read":
            return c.read(self.obj, x)
        return c.fitread(self.obj, x, y)

    def do(self, e, x=None):
        """Returns a canonical output, None if the event is outside the documented domain here."""
        op = e["op"]
        if self.err:
            return ("ctor", self.err)
        if not self.allowed(op):
            return None
        if x is None:
            x = self.comp.x(e["x"])
        y = e.get("y")
        try:
            r = self.raw(op, x, y)
        except (Cancelled, NoProgress):
            raise
        except BaseException as ex:
            self.account(op)
            return ("exc", type(ex).__name__)
        self.account(op)
        if op == "fit":
            return ("self",) if r is self.obj else ("ret", canon(r))
        return ("val", canon(r))


def run_script(comp, params, events, on=None):
    s = Session(comp, params)
    out = []
    for e in events:
        out.append(s.do(e))
    return out


# ------------------------------------------------------------------ batch calls
def batch_array(comp, xs):
    if comp.scalar_x:
        return np.array([x[0] if isinstance(x, list) else x for x in xs], dtype=np.float64)
    return np.array(xs, dtype=np.float64).reshape(len(xs), -1)


def batch_call(comp, o, op, X, Y=None):
    """The batch counterpart of fit / read / fitread."""
    if comp.family == "model":
        if op == "fit":
            return o.fit(X, Y) if Y is not None else o.fit(X)
        if op == "read":
            return o.score(X)
        return o.fit_score(X, Y) if Y is not None else o.fit_score(X)
    if op == "fit":
        return o.fit(X)
    if op == "read":
        return o.transform(X)
    return o.fit_transform(X)
