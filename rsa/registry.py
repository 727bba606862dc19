from .clients import aliasing, attrs, batches, defassign, determinism, effects, inert, libraries, linking, metrics, named, nullness, records, returns, roles, roworder, rows, slicepoints, stackers, stale, storage, units, vocabulary
from .props import PROPS

CHECKS = {
    "P01": [stackers.check_stackers],
    "P02": [metrics.check_columns, named.check],
    "P03": [metrics.check_isolation],
    "P04": [slicepoints.check_maps, slicepoints.check_metric_keys],
    "P05": [linking.check_names, linking.check_self_attrs, linking.check_calls, linking.check_typed_attrs,
            libraries.check_members, libraries.check_calls, libraries.check_instances, libraries.check_exceptions,
            vocabulary.check_names, vocabulary.check_method_calls],
    "P06": [defassign.check, attrs.check_assigned],
    "P07": [nullness.check, attrs.check_null],
    "P08": [effects.check_options, effects.check_swallowed, effects.check_dead],
    "P09": [returns.check_paths, returns.check_shapes, returns.check_protocol],
    "P10": [inert.check_statements, inert.check_values, inert.check_loops],
    "P11": [stale.check_targets, stale.check_accumulators, stale.check_running_counts],
    "P12": [units.check],
    "P14": [aliasing.check],
    "P15": [roworder.check],
    "P16": [determinism.check_draws, determinism.check_order, determinism.check_clock],
    "P17": [roles.check_arguments, roles.check_results, roles.check_stores, roles.check_documented],
    "P18": [batches.check],
    "P19": [storage.check_sessions, storage.check_statements, rows.check_rows],
    "P13": [records.check, records.check_passed, records.check_slicer_plots, records.check_saved, records.check_rebuilt, records.check_reduce, records.check_tables],
}
PROPERTIES = {k: dict(checks=v, rule=PROPS[k]["rule"], assumptions=PROPS[k]["assumptions"]) for k, v in CHECKS.items()}
