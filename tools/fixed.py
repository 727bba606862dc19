"""Regenerate the 'fixed' list of known_findings.json from the map below and /repo's log (development tool)."""
import json, subprocess
M = {
 "fix: recording nightly statistics no longer uses up the connection pool": "P19",
 "fix: a conda environment is recorded with both its hash and its contents, or neither": "P10",
 "fix: ResultsDb retries a locked database, and closes its session when a display is kept": "P19",
 "fix: make_fbs_tracking_db closes its databases": "P19",
 "fix: simulations can be looked up for a telescope without tags": "P19",
 "fix: tracking database rows show their own comment and version": "P19",
 "fix: sim_metadata_yaml names the simulated dates as they are read back": "P13",
 "fix: bd_colors gives the L3 colors as a dictionary like the other types": "P13",
 "fix: the reduce functions of TripletBandMetric, GRBTransientMetric and VisitGroupsMetric have an order": "P13",
 "fix: GalPlaneSeasonGapsTimescalesMetric orders its reduce functions under their names": "P13",
 "fix: glanceBatch applies its sql_constraint to every bundle": "P18",
 "fix: ddfBatch applies its extra_sql, and labels it, in every bundle": "P18",
 "fix: the batches select bands in the band column, with the caller's selection enclosed": "P18",
 "fix: NFollowStacker passes the observatory latitude and longitude in order": "P17",
 "fix: ParallaxCoverageMetric hands its parallax amplitudes over in the order _weighted_r names them": "P17",
 "fix: generate_kn_pop_slicer uses the seed when given event positions": "P16",
 "fix: the periodic star metrics draw from a generator of their own seed": "P16",
 "fix: XRB outburst parameters follow the seed": "P16",
 "fix: Orbits.assign_sed uses the random_seed of every call": "P16",
 "fix: the random plot colors are the same for the same bundles": "P16",
 "fix: GRBTransientMetric draws the burst magnitudes from a seeded generator": "P16",
 "fix: VarDepth draws its noise realizations from a seeded generator": "P16",
 "fix: KnownObjectsMetric picks the successful observations from a seeded generator": "P16",
 "fix: the numbering of the KN and TDE light curves does not depend on how the files are listed": "P16",
 "fix: get_baseline picks the same file however the directory is listed": "P16",
 "fix: run_moving_fractions names its figures after the same metric file however the directory is listed": "P16",
 "fix: the SED cache is compared for the same files on every run": "P16",
 "fix: the titles, labels and file names of joint plots are the same on every run": "P16",
 "fix: the columns queried for the moving object observations come in the same order on every run": "P16",
 "fix: the astrometry and DCR metrics accept an SED template again": "P05",
 "fix: StaticProbesFoMEmulatorMetricSimple interpolates the figure of merit": "P05",
 "fix: UDropoutsNumbersShallowestDepth integrates with a function numpy has": "P05",
 "fix: PeriodicMetric no longer needs np.float": "P05",
 "fix: OneDSlicer warns about bins given twice": "P05",
 "fix: drive_sim returns the path of the simulation archive directory": "P05",
 "fix: the satellite ModelObservatory can be made again": "P05",
 "fix: the data of a metric can be served as JSON or npz": "P05",
 "fix: a metric bundle saved without an info_label can be read": "P05",
 "fix: MetricBundle.plot works with a given plotter": "P05",
 "fix: the reduced values of a metric can be read back from disk": "P05",
 "fix: combined moving object subsets carry the joint values": "P05",
 "fix: LVDwarfsMetric counts stars to the coadded depth of the visits": "P05",
 "fix: microlensing_compare reads the results databases": "P05",
 "fix: DiscoveryVelocityMetric can be made": "P05",
 "fix: MoMetricBundleGroup.plot_all reports plots that fail and carries on": "P05",
 "fix: cache_lsst_seds carries on without the cache when it does not validate": "P05",
 "fix: TrackingDb says that it cannot create its database": "P05",

 "fix: SaturationStacker marks the saturated visits themselves, not others of the same number": "P15",
 "fix: ProperMotionMetric's normalisation does not depend on the order of the visits": "P15",
 "fix: OverheadStacker compares each visit with the one before it in time": "P15",
 "fix: PeriodicMetric does not depend on the order of the visits": "P15",
 "fix: DiscoveryMetric reports discoveries as positions in the time-ordered observations": "P15",
 "fix: InstantaneousColorMetric does not depend on the order of the observations": "P15",
 "fix: HighVelocityNightsMetric does not depend on the order of the observations": "P15",
 "fix: MagicDiscoveryMetric looks at the nights of the visible observations": "P15",
 "fix: TwoDMap does not carry the axis label of one slicer over to the next": "P14",
 "fix: LsqrSolver leaves the caller's observations in their order": "P14",
 "fix: TwilightInterp leaves the caller's fit_results unchanged": "P14",
 "fix: VisitSequenceArchiveMetadata leaves the caller's connection arguments unchanged": "P14",
 "fix: make_sim_data_dir leaves the caller's opsim_metadata unchanged": "P14",
 "fix: fetch_sim_for_nights leaves the caller's stackers and arguments unchanged": "P14",
 "fix: Orbits.set_orbits leaves the caller's DataFrame unchanged": "P14",
 "fix: ChebyValues.get_ephemerides leaves the requested obj_ids unchanged and checks them": "P14",
 "fix: plot_run_metric_uncert leaves the shared colorcet palette unchanged": "P14",
 "fix: plotting with mask_below or color_min leaves the metric values' own mask unchanged": "P14",
 "fix: ResultsDb.update_display leaves the caller's display_dict unchanged": "P14",
 "fix: column names given by options are used wherever the column is read": "P02",
 "fix: SNSNRMetric reads the positions under the names they are stored": "P13",
 "fix: moving object and n-d plotters read the plot settings and slicer attributes that are set": "P13",
 "fix: slicers save the settings with which they can be rebuilt": "P13",  # fix commit subject -> (property, what failed)
 "fix: M5OptimalStacker declares the limiting-depth column it reads": "P01",
 "fix: TeffStacker.units is a list with one entry per added column": "P01",
 "fix: MoMagStacker units match its columns and cols_req is always set": "P01",
 "fix: ZenithDistStacker sets units in radians mode; Dcr2Stacker uses a supplied zstacker and declares all its units": "P01",
 "fix: metrics forward filter/exposure-time columns to the metrics they wrap, and declare them": "P02",
 "fix: metrics declare every visit column they read": "P02",
 "fix: metrics do not write to the visits they share with other metrics": "P03",
 "fix: metrics do not carry values from one slice into the next": "P03",
 "fix: GRBTransientMetric uses a supplied survey_start": "P03",
 "fix: SNNSNMetric applies dust extinction to its own copy of the visits": "P03",
 "fix: GalPlaneSeasonGapsTimescaleMetric asks for the map it reads": "P04",
 "fix: Sed.renormalize_sed works when normalizing fnu": "P05",
 "fix: phaseGap batch uses the current PhaseGapMetric interface and applies extraSql": "P05",
 "fix: calls to metrics and plotters use parameters the callee accepts": "P05",
 "fix: calc_wd_colors imports rubin_sim.phot_utils by its current name": "P05",
 "fix: unsupported option values raise ValueError instead of an unassigned variable": "P06",
 "fix: assign survey_start, color_limits, colorbar label, idx_order and k_atm on every path": "P06",
 "fix: default wavelength step of Sed.multiply_sed/renormalize_sed; SNSNRMetric.gen_fakes uses the current interface": "P07",
 "fix: leaving out an optional argument no longer leads to None being used as a value": "P07",
 "fix: CountRatioMetric units, ModelObservatory nside and completeness hindex options take effect": "P08",
 "fix: run_moving_calc reports a missing simulation_db; drop unused time grid": "P08",
 "fix: use the monopole-subtracted data, full bad-value mask, captions and uncached slicer that were computed and dropped": "P08",
 "fix: drop values that were computed and never used": "P08",
 "fix: supernova metrics and rates return a value on every path": "P09",
 "fix: raise the errors, apply the assignments and fill the texts that were written but had no effect": "P10",
 "fix: group bundles only with all-compatible bundles; drop a condition that was always true and an unused loop": "P10",
 "fix: batches use the filter or field of the current bundle, not the last one of an earlier loop": "P11",
 "fix: star count metrics use the point's coordinates and a working coordinate conversion": "P12",
 "fix: angles are converted to the unit in which they are used": "P12",
 "fix: keep the optional values given to a constructor, and compute the missing ones": "P06",
 "fix: drop a figure choice that could never be made in the run comparison plots": "P10",
 "fix: write to the array, filter and counter that are used, not to copies, stale selections or branches never taken": "P10",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out, missing = [], []
for l in reversed(log):
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        if s in M:
            out.append(f"fixed: property={M[s]} {h} {s[5:]}")
        else:
            missing.append(s)
p = "/verif/known_findings.json"
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
print(len(out), "fixed;", "unmapped:", missing)
