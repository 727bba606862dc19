SEEDS = [
 dict(id="s01-normairmass-dec", property="P01",
  edits=[("rubin_sim/maf/stackers/general_stackers.py",
          "        if self.degrees:\n            dec = np.radians(dec)\n        min_z_possible",
          "        if self.degrees:\n            dec = np.radians(sim_data[\"fieldDec\"])\n        min_z_possible")],
  needs="a declination column with a non-default name, in degrees",
  breaks="the stacker reads a column it did not declare; with dec_col set, the run fails or silently uses another column",
  demo='''import numpy as np
from rubin_sim.maf.stackers import NormAirmassStacker
d = np.zeros(3, dtype=[("airmass", float), ("dithDec", float)])
d["airmass"] = 1.2
d["dithDec"] = [-30, -20, -10]
out = NormAirmassStacker(dec_col="dithDec").run(d)
assert np.all(out["normairmass"] > 0)
'''),
 dict(id="s02-ha-early", property="P01",
  edits=[("rubin_sim/maf/stackers/general_stackers.py",
          "        if (np.min(lst) < 0) | (np.max(lst) > 2.0 * np.pi):\n            warnings.warn(\"LST values are not between 0 and 2 pi\")\n",
          "        if (np.min(lst) < 0) | (np.max(lst) > 2.0 * np.pi):\n            warnings.warn(\"LST values are not between 0 and 2 pi\")\n            return sim_data\n")],
  needs="visits whose sidereal time lies outside 0..360 degrees",
  breaks="the hour-angle column is left unfilled (zeros) on the warning path",
  demo='''import numpy as np, warnings
warnings.simplefilter("ignore")
from rubin_sim.maf.stackers import HourAngleStacker
d = np.zeros(2, dtype=[("observationStartLST", float), ("fieldRA", float)])
d["observationStartLST"] = [361.0, 30.0]
d["fieldRA"] = [10.0, 60.0]
out = HourAngleStacker().run(d)
assert abs(out["HA"][1] + 2.0) < 1e-9, out["HA"]
'''),
 dict(id="s03-pairfrac-sort", property="P03",
  edits=[("rubin_sim/maf/metrics/visit_groups_metric.py",
          "        times = np.sort(data_slice[self.mjd_col])\n\n        # Check which ones have a forard match",
          "        times = data_slice[self.mjd_col]\n        if np.any(np.diff(times) < 0):\n            times.sort()\n\n        # Check which ones have a forard match")],
  needs="visits not in time order, and a second metric evaluated on the same visits",
  breaks="sorts the time column of the shared visits in place, pairing times with the wrong rows for every later metric",
  demo='''import numpy as np
from rubin_sim.maf.metrics import PairFractionMetric
d = np.zeros(3, dtype=[("observationStartMJD", float), ("night", int)])
d["observationStartMJD"] = [3.0, 1.0, 2.0]
d["night"] = [3, 1, 2]
PairFractionMetric().run(d)
assert all(int(t) == n for t, n in zip(d["observationStartMJD"], d["night"])), d
'''),
 dict(id="s04-maxstate-timecol", property="P02",
  edits=[("rubin_sim/maf/metrics/technical_metrics.py",
          "        super(MaxStateChangesWithinMetric, self).__init__(\n            col=[change_col, time_col],",
          "        super(MaxStateChangesWithinMetric, self).__init__(\n            col=[change_col, \"observationStartMJD\"],")],
  needs="a non-default time column",
  breaks="the metric does not declare the time column it reads, so it is not fetched from the visit database",
  demo='''from rubin_sim.maf.metrics import MaxStateChangesWithinMetric
m = MaxStateChangesWithinMetric(time_col="obsStartTAI")
assert "obsStartTAI" in m.col_name_arr, m.col_name_arr
'''),

 dict(id="s05-exgal-wrapped", property="P02",
  edits=[("rubin_sim/maf/metrics/exgal_m5.py",
          "        self.coaddm5_metric = Coaddm5Metric(m5_col=m5_col)",
          "        self.coaddm5_metric = Coaddm5Metric()")],
  needs="a non-default depth column",
  breaks="the wrapped depth metric reads the default column name, which was never declared or fetched",
  demo="""import numpy as np
import rubin_sim.maf.metrics.exgal_m5 as mod
class DV:
    ax1 = {"r": 2.0}
mod.DustValues = DV
d = np.zeros(3, dtype=[("m5opt", float), ("band", "U1")])
d["m5opt"] = 24.0
d["band"] = "r"
m = mod.ExgalM5(m5_col="m5opt")
assert m.run(d, {"ebv": 0.0}) > 24
"""),
 dict(id="s06-stardensity-map", property="P04",
  edits=[("rubin_sim/maf/metrics/agn_time_lag_metric.py",
          "        if dust:\n            maps = [\"DustMap\"]\n            dust_properties",
          "        maps = []\n        if dust:\n            if log:\n                maps = [\"DustMap\"]\n            dust_properties"),
         ("rubin_sim/maf/metrics/agn_time_lag_metric.py",
          "        else:\n            maps = []\n        super()", "        super()")],
  needs="dust correction on with linear output (the default), run through a real slicer",
  breaks="the dust value read at every point is provided by no map the metric asks for",
  demo="""import numpy as np
import rubin_sim.maf.metrics.agn_time_lag_metric as mod
class DV:
    ax1 = {"r": 2.0}
mod.DustValues = DV
m = mod.AgnTimeLagMetric(dust=True, log=False)
assert "DustMap" in m.maps
"""),
 dict(id="s07-season-state", property="P03",
  edits=[("rubin_sim/maf/metrics/season_metrics.py",
          "        long = np.where(data_slice[self.exp_time_col] > self.min_exp_time)\n        if len(long[0]) == 0:\n            return self.badval\n        data = np.sort(data_slice[long], order=self.mjd_col)\n        # SlicePoints ra/dec are always in radians -\n        # convert to degrees to calculate season\n        seasons = calc_season(np.degrees(slice_point[\"ra\"]), data[self.mjd_col])\n        first_of_season, last_of_season = find_season_edges(seasons)\n        seasonlengths = data",
          "        long = np.where(data_slice[self.exp_time_col] > self.min_exp_time)\n        if len(long[0]) == 0:\n            return self.badval\n        data = np.sort(data_slice[long], order=self.mjd_col)\n        # SlicePoints ra/dec are always in radians -\n        # convert to degrees to calculate season\n        if getattr(self, \"_ra\", None) is None or len(data) > 1:\n            self._ra = np.degrees(slice_point[\"ra\"])\n        seasons = calc_season(self._ra, data[self.mjd_col])\n        first_of_season, last_of_season = find_season_edges(seasons)\n        seasonlengths = data")],
  needs="an earlier sky point, then one with a single visit",
  breaks="the season is computed with the right ascension of an earlier sky point",
  demo="""import numpy as np
import rubin_sim.maf.metrics.season_metrics as mod
seen = []
orig = mod.calc_season
mod.calc_season = lambda ra, t: (seen.append(float(np.ravel(ra)[0])), orig(ra, t))[1]
m = mod.SeasonLengthMetric()
def d(n):
    x = np.zeros(n, dtype=[("observationStartMJD", float), ("visitExposureTime", float)])
    x["observationStartMJD"] = 60000 + np.arange(n)
    x["visitExposureTime"] = 30
    return x
m.run(d(3), {"ra": 0.1})
m.run(d(1), {"ra": 2.0})
assert abs(seen[-1] - np.degrees(2.0)) < 1e-9, seen
"""),
 dict(id="s08-brute-call", property="P05",
  edits=[("rubin_sim/maf/metrics/agn_time_lag_metric.py",
          "            nquist = np.log(nquist)\n",
          "            nquist = np.log(nquist) if nquist > 0 else self.bad_val\n")],
  needs="logarithmic output with a lag of zero",
  breaks="an attribute that no metric has is read on a rare path",
  demo="""import numpy as np
from rubin_sim.maf.metrics import AgnTimeLagMetric
m = AgnTimeLagMetric(dust=False, log=True, lag=0)
d = np.zeros(3, dtype=[("observationStartMJD", float), ("band", "U1"), ("fiveSigmaDepth", float)])
d["band"] = "r"
d["observationStartMJD"] = [1, 2, 3]
d["fiveSigmaDepth"] = 24
m.run(d, {})
"""),
]
