M = "rubin_sim/maf/metrics/"
DUST = """import rubin_sim.phot_utils as pu


class Dust:
    # the throughput files are not here: one extinction for all bands
    def __init__(self, *a, **k):
        self.ax1 = dict.fromkeys("ugrizy", 1.0)
        self.r_x = dict(self.ax1)


pu.DustValues = Dust
"""
SEEDS = [
 dict(id="s09-maxgap-order", property="P15",
  edits=[(M + "tgaps.py", "gaps = np.diff(np.sort(data_slice[self.mjd_col]))", "gaps = np.diff(data_slice[self.mjd_col])")],
  needs="visits that are not handed over in time order",
  breaks="the longest gap is computed between neighbours in the table, not between successive visits",
  demo='''import numpy as np
from rubin_sim.maf.metrics import MaxGapMetric
d = np.zeros(4, dtype=[("observationStartMJD", float)])
d["observationStartMJD"] = [10.0, 1.0, 12.0, 3.0]
a = MaxGapMetric().run(d.copy())
b = MaxGapMetric().run(np.sort(d))
assert a == b, (a, b)
'''),
 dict(id="s10-sf-order", property="P15",
  edits=[(M + "agnstructure.py",
          "        order = np.argsort(data_slice[self.times_col][bright_enough])\n        times = data_slice[self.times_col][bright_enough][order]",
          "        order = np.argsort(data_slice[self.times_col])[: len(bright_enough)]\n        order = order[order < len(bright_enough)]\n        times = data_slice[self.times_col][bright_enough][order]")],
  needs="visits out of time order, some of them too shallow to see the source",
  breaks="the order found among all visits is used for the deep ones alone, so pairs depend on where visits stand in the table",
  demo=DUST + '''import numpy as np
from rubin_sim.maf.metrics import SFUncertMetric
rng = np.random.default_rng(3)
d = np.zeros(40, dtype=[("observationStartMJD", float), ("fiveSigmaDepth", float), ("band", "U1")])
d["observationStartMJD"] = np.sort(rng.uniform(0, 2000, 40))
d["fiveSigmaDepth"] = rng.uniform(19, 25, 40)
d["band"] = "r"
m = SFUncertMetric(mag=22, dust=False)
a = m.run(d.copy())
b = m.run(d[rng.permutation(40)].copy())
assert np.isclose(a, b), (a, b)
'''),
 dict(id="s11-xrb-stream", property="P16",
  edits=[("rubin_sim/maf/maf_contrib/xrb_metrics.py", "self.rng.lognormal(2.9, 0.65, size=size)", "np.random.lognormal(2.9, 0.65, size=size)")],
  needs="two runs with the same seed in processes whose global generator is in another state",
  breaks="some of the drawn outburst parameters no longer follow from the seed",
  demo=DUST + '''import numpy as np
from rubin_sim.maf.maf_contrib.xrb_metrics import XrbLc
np.random.seed(1)
a = XrbLc(seed=5).outburst_params(size=20)
np.random.seed(2)
b = XrbLc(seed=5).outburst_params(size=20)
assert all(x[k] == y[k] for x, y in zip(a, b) for k in x)
'''),
 dict(id="s12-galactic-radec", property="P17",
  edits=[("rubin_sim/maf/stackers/coord_stackers.py",
          "c = SkyCoord(ra=sim_data[self.ra_col] * u.rad, dec=sim_data[self.dec_col] * u.rad).transform_to(",
          "c = SkyCoord(ra=sim_data[self.dec_col] * u.rad, dec=sim_data[self.ra_col] * u.rad).transform_to(")],
  needs="visit coordinates in radians",
  breaks="right ascension and declination are exchanged on the radians branch",
  demo='''import numpy as np
from rubin_sim.maf.stackers import GalacticStacker
t = [("fieldRA", float), ("fieldDec", float)]
d, r = np.zeros(2, dtype=t), np.zeros(2, dtype=t)
d["fieldRA"], d["fieldDec"] = [20.0, 50.0], [-30.0, 10.0]
for k in ("fieldRA", "fieldDec"):
    r[k] = np.radians(d[k])
a = GalacticStacker(degrees=True).run(d)
b = GalacticStacker(degrees=False).run(r)
assert np.allclose(a["gall"], b["gall"]) and np.allclose(a["galb"], b["galb"])
'''),
 dict(id="s13-vector-cols", property="P14",
  edits=[(M + "vector_metrics.py", "            cols = list(col) + [bin_col]", "            cols = col\n            if bin_col not in cols:\n                cols += [bin_col]")],
  needs="a caller's list of columns that is used again",
  breaks="the list of columns a caller hands over grows",
  demo='''from rubin_sim.maf.metrics.vector_metrics import VectorMetric
mine = ["airmass", "seeingFwhmEff"]
VectorMetric(bins=[0, 1, 2], bin_col="night", col=mine)
assert mine == ["airmass", "seeingFwhmEff"], mine
'''),
 dict(id="s14-campaign-degrees", property="P12",
  edits=[(M + "season_metrics.py",
          "        seasons = calc_season(np.degrees(slice_point[\"ra\"]), data[self.mjd_col])\n        int_seasons = np.floor(seasons)\n        count",
          "        seasons = calc_season(slice_point[\"ra\"], data[self.mjd_col])\n        int_seasons = np.floor(seasons)\n        count")],
  needs="a sky point whose season boundary falls among the visits",
  breaks="the right ascension in radians is used as degrees when seasons are counted",
  demo='''import numpy as np
from rubin_sim.maf.metrics import CampaignLengthMetric
from rubin_scheduler.utils import calc_season
d = np.zeros(36, dtype=[("observationStartMJD", float), ("visitExposureTime", float)])
d["observationStartMJD"] = 60000 + np.arange(36) * 5.0
d["visitExposureTime"] = 30
for ra in np.radians(np.arange(5, 360, 10)):
    want = len(np.unique(np.floor(calc_season(np.degrees(ra), d["observationStartMJD"]))))
    got = CampaignLengthMetric().run(d.copy(), {"ra": ra, "dec": 0.0})
    assert got == want, (np.degrees(ra), got, want)
'''),
 dict(id="s15-tdc-key", property="P13",
  edits=[(M + "season_metrics.py", "return metric_value[\"cadence (days)\"]", "return metric_value[\"cadence\"]")],
  needs="the reduced cadence value being asked for",
  breaks="an entry is read under a name that the metric's result does not have",
  demo=DUST + '''import numpy as np
from rubin_sim.maf.metrics import TdcMetric
t = [("observationStartMJD", float), ("night", int), ("band", "U1"), ("fiveSigmaDepth", float), ("visitExposureTime", float)]
d = np.zeros(300, dtype=t)
d["observationStartMJD"] = 60000 + np.arange(300) * 2.0
d["night"] = np.floor(d["observationStartMJD"])
d["band"], d["fiveSigmaDepth"], d["visitExposureTime"] = "r", 25, 30
m = TdcMetric()
v = m.run(d, {"ra": 1.0, "dec": 0.0, "ebv": 0.1})
assert isinstance(v, dict), v
assert np.isfinite(m.reduce_cadence(v))
'''),
 dict(id="s16-season-none", property="P09",
  edits=[(M + "season_metrics.py",
          "        if len(long[0]) == 0:\n            return self.badval\n        data = np.sort(data_slice[long], order=self.mjd_col)\n        # SlicePoints ra/dec are always in radians -\n        # convert to degrees to calculate season\n        seasons = calc_season(np.degrees(slice_point[\"ra\"]), data[self.mjd_col])\n        first_of_season, last_of_season = find_season_edges(seasons)\n        season_means",
          "        if len(long[0]) == 0:\n            return\n        data = np.sort(data_slice[long], order=self.mjd_col)\n        # SlicePoints ra/dec are always in radians -\n        # convert to degrees to calculate season\n        seasons = calc_season(np.degrees(slice_point[\"ra\"]), data[self.mjd_col])\n        first_of_season, last_of_season = find_season_edges(seasons)\n        season_means")],
  needs="a sky point covered by short visits alone",
  breaks="no value is returned where the bad value belongs",
  demo='''import numpy as np
from rubin_sim.maf.metrics import MeanCampaignFrequencyMetric
d = np.zeros(3, dtype=[("observationStartMJD", float), ("visitExposureTime", float), ("night", int)])
d["visitExposureTime"] = 1
m = MeanCampaignFrequencyMetric()
assert m.run(d, {"ra": 1.0, "dec": 0.0}) == m.badval
'''),
 dict(id="s17-triplet-ratio", property="P10",
  edits=[("rubin_sim/maf/maf_contrib/triplet_metric.py", "if ratiomin < ratio < ratiomax:", "if ratiomin < ratio < ratiomin:")],
  needs="three visits in one band, apart by unequal hours",
  breaks="the condition can never hold, so no triplet is counted",
  demo='''import numpy as np
from rubin_sim.maf.maf_contrib import TripletBandMetric
d = np.zeros(3, dtype=[("expMJD", float), ("filter", "U1")])
d["expMJD"] = 60000 + np.array([0.0, 2.0, 5.0]) / 24
d["filter"] = "r"
assert TripletBandMetric().run(d)["r"] == 1
'''),
 dict(id="s18-triplet-total", property="P11",
  edits=[("rubin_sim/maf/maf_contrib/triplet_metric.py",
          "                newadd = np.size(index3)\n                total = total + newadd  # add all triplets with same\n",
          "                newadd = np.size(index3)\n            total = total + newadd  # add all triplets with same\n")],
  needs="a first visit with no second visit in the window, or with several",
  breaks="the triplets of the last middle visit alone are added, also for visits that have none",
  demo='''import numpy as np
from rubin_sim.maf.maf_contrib import TripletMetric
d = np.zeros(5, dtype=[("expMJD", float)])
d["expMJD"] = 60000 + np.array([0.0, 2.0, 5.0, 9.0, 40.0]) / 24
m = TripletMetric()
t = np.sort(d["expMJD"])
want = sum(1 for a in t for b in t for c in t
           if m.delmin < b - a < m.delmax and m.delmin < c - b < m.delmax)
got = m.run(d)
assert got == want, (got, want)
'''),
 dict(id="s19-vector-dtype", property="P08",
  edits=[(M + "vector_metrics.py", "            col=col, bin_col=bin_col, bins=bins, metric_dtype=metric_dtype, **kwargs\n", "            col=col, bin_col=bin_col, bins=bins, **kwargs\n")],
  needs="a data type other than the default",
  breaks="the data type that the caller chooses has no effect",
  demo='''import numpy as np
from rubin_sim.maf.metrics import AccumulateMetric
m = AccumulateMetric(bins=[0, 1, 2], metric_dtype=int)
assert m.metric_dtype == int, m.metric_dtype
'''),
 dict(id="s20-metadata-angle-sql", property="P18",
  edits=[("rubin_sim/maf/batches/metadata_batch.py",
          "        mdict = metadataBasicsAngle(\n            value,\n            colmap=colmap,\n            runName=runName,\n            valueName=valueName,\n            extraSql=extraSql,\n",
          "        mdict = metadataBasicsAngle(\n            value,\n            colmap=colmap,\n            runName=runName,\n            valueName=valueName,\n")],
  needs="a selection handed to the whole set of metadata bundles",
  breaks="the bundles about angles are computed for all visits, not the selected ones",
  demo='''from rubin_sim.maf.batches import allMetadata
b = allMetadata(extraSql="night < 100", extraInfoLabel="early")
assert len(b) > 10
for k, v in b.items():
    assert "night < 100" in v.constraint, (k, v.constraint)
'''),
 dict(id="s21-metadata-last", property="P18",
  edits=[("rubin_sim/maf/batches/metadata_batch.py",
          "            slicer=slicer,\n        )\n        bdict.update(mdict)\n    return bdict\n\n",
          "            slicer=slicer,\n        )\n    bdict.update(mdict)\n    return bdict\n\n")],
  needs="more than one angle in the list of quantities",
  breaks="the bundles of every angle but the last are made and thrown away",
  demo='''from rubin_sim.maf.batches import allMetadata, col_map_dict
c = col_map_dict()
c["metadataAngleList"] = ["rotTelPos", "rotSkyPos"]
b = allMetadata(colmap=c)
for n in ("rotTelPos", "rotSkyPos"):
    assert any(n in k for k in b), n
'''),
]
