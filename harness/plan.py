"""Number of cases by property and tier, what must have been observed, and what makes a case non trivial."""
PLAN = {
    "C01": dict(quick=1280, thorough=20000, require=["balances_non_zero", "studies_solved"],
                rule="random studies (4 families: any, meshes with cycles/self links, converters sharing nodes, several storages); "
                     "non trivial: a node with non zero throughput, distinct by its mix of elements, loops and converters"),
    "C02": dict(quick=1440, thorough=20000, require=["bounds_reached", "zero_bounds"],
                rule="random studies, half of them with bounds varying strongly by scenario and time step; non trivial: a series reaching its bound"),
    "C03": dict(quick=1120, thorough=20000, require=["levels_non_zero", "inflows_non_zero", "outflows_non_zero"],
                rule="random studies with 1..6+ storages; non trivial: a storage with flow, distinct by rank, horizon, scenarios, efficiency form"),
    "C04": dict(quick=1440, thorough=20000, require=["conversions_non_zero"],
                rule="random studies with 1..4+ converters; non trivial: a source of a converter in use"),
    "C05": dict(quick=1280, thorough=20000, require=["reference_optima", "scenarios_with_non_zero_cost", "studies_where_dest_costs", "studies_where_cap_costs"],
                rule="random feasible studies in 5 families, each scenario compared to an independently certified optimum; distinct by structure and active cost terms"),
}
PLAN.update({
    "C06": dict(quick=240, thorough=4000, require=["scenario_costs_compared", "solves_with_perturbed_schedule", "studies_with_distinct_scenario_costs", "studies_solved_at_the_same_time"],
                rule="random multi scenario studies; each solved whole, scenario by scenario, reordered with repetitions under perturbed worker schedule, "
                     "and again after another study; non trivial: distinct by scenarios, workers and structure"),
    "C07": dict(quick=320, thorough=6000, require=["structures_compared", "series_observed", "repeated_solves", "extensions_solved"],
                rule="random studies with a history solve / analyse / solve / overwrite a result / solve / extend in 1..3 steps; distinct by structure"),
    "C21": dict(quick=1280, thorough=20000, require=["studies_refused", "studies_answered", "answered_with_forced_drain", "refused_unbounded", "refused_nan", "refused_inf", "answered_with_unlimited_links"],
                rule="random studies with storages made feasible or not (certified by duality); distinct by verdict, family, sizes and culprit scenario"),
    "C22": dict(quick=64, thorough=600, cap_quick=600, require=["process_tables_observed", "failed_calls", "shuffles", "studies_solved", "solves_with_a_killing_ended", "errors_not_received", "killed_shuffles", "calls_at_the_same_time", "shuffles_at_the_same_time", "shuffles_in_a_shuffle"],
                rule="random histories of 5..9 succeeding and failing solves and shuffles; distinct by history"),
})
PLAN.update({
    "C08": dict(quick=1920, thorough=20000, require=["additions_accepted", "additions_refused", "values_read"],
                rule="random histories of 15..35 additions, half of them invalid (name, shape, one offending number anywhere, unknown node, ...); "
                     "distinct by kind of addition and reason"),
    "C09": dict(quick=1280, thorough=20000, require=["values_read", "forms_given", "given_objects_changed_later", "objects_given_again", "reads_out_of_range_refused", "shapes_refused", "optimal_costs_compared"],
                rule="a value in each slot of a study under every container, type and shape; and whole studies re-expressed; distinct by slot, form and shape"),
    "C23": dict(quick=960, thorough=12000, require=["calls_on_kept_handles", "reopenings", "optimal_costs_compared"],
                rule="random interleavings of building calls on kept handles; distinct by structure"),
})
PLAN.update({
    "C10": dict(quick=480, thorough=10000, require=["studies_round_tripped", "results_round_tripped", "differences_judged", "equalities_judged", "outcomes_compared", "sources_with_separator_in_name", "converters_finished_after_reading"],
                rule="random studies and results round tripped, and compared to copies with exactly one difference; distinct by structure and difference"),
    "C11": dict(quick=640, thorough=12000, level="fault_enumeration",
                require=["requests_observed", "results_returned", "errors_raised_value", "errors_raised_io", "errors_raised_server", "errors_raised_any", "concurrent_pairs"],
                rule="scripted server histories (0..400 waiting answers in any order, then result, job error, http code, closed or cut answer at any request), "
                     "optimizers reused and concurrent; distinct by history, fault and token"),
})
PLAN.update({
    "C12": dict(quick=1120, thorough=20000, require=["other_results_analysed", "rows_observed", "empty_tables"] + ["tables_" + t for t in ("consumption", "storage", "src_converter", "dest_converter")],
                rule="random studies with solved results or arbitrary distinct numbers; distinct by table, number of elements, horizon and scenarios"),
    "C13": dict(quick=480, thorough=10000, require=["queries_judged", "rows_observed", "answers_tampered", "queries_sharing_prefix", "repeated_steps_refused", "empty_answers"],
                rule="random queries (order of steps, kind of selection), interleaved on shared prefixes, repeated after tampering; distinct by element, order, selections"),
    "C14": dict(quick=480, thorough=12000, require=["answers_tampered", "aggregates_compared", "optimal_costs_compared"],
                rule="random studies, solved or with arbitrary numbers; distinct by elements of node and dimensions"),
})
PLAN.update({
    "C15": dict(quick=480, thorough=8000, require=["pipelines_linked", "runs", "tables_predicted", "images_compared", "answers_tampered", "answers_kept", "flat_tables"],
                rule="random histories of linking (sharing stages and pipelines) and running on shared tables; distinct by stages and table form"),
})
PLAN.update({
    "C16": dict(quick=960, thorough=12000, require=["links_accepted", "links_refused", "plugs_compared", "data_refused", "lookalikes_given", "accepted_pipelines_run", "shuffler_links_judged"],
                rule="random chains of 2..7 stages (free and with declared needs, linkable or not), by addition or list, with every missing input; "
                     "distinct by verdict, way, position and number of columns"),
})
PLAN.update({
    "C17": dict(quick=400, thorough=12000, require=["cells_compared"] + ["stage_" + s for s in ("Clip", "Rename", "ToShuffler", "Drop", "RepeatScenario")],
                rule="random tables (with or without scenario level, any labels, interleaved columns, date/text/unsorted index, missing values) under random "
                     "parameters; distinct by stage, form of table and whether it changes anything"),
})
PLAN.update({
    "C18": dict(quick=640, thorough=12000, require=["outage_steps_seen", "seeded_runs_compared", "unseeded_draws_compared", "statistical_checks", "isolated_outages"],
                rule="random tables and parameters, each run decomposed into outages; unseeded draws compared between scenarios, runs and processes; "
                     "distinct by horizon, durations, overlap and position of outages"),
})
PLAN.update({
    "C19": dict(quick=480, thorough=6000, require=["rows_identified", "custom_sampler_rows", "sources_compared", "draw_pairs_compared", "statistical_checks", "generated_rows_compared"],
                rule="random sets of 1..9 raw and pipeline timelines under 1..8 workers; distinct by sizes, number of draws, workers, sampler and kind of timeline"),
})
PLAN.update({
    "C20": dict(quick=192, thorough=8000, require=["figures", "values_read", "candles_read", "layers_read", "stacks_balanced", "cells_read", "balances_read", "exchanges_read", "sides_judged", "date_axis", "answers_compared", "double_demands_refused"],
                rule="random studies, solved or with arbitrary numbers, plotted in random order; distinct by plot, dimensions, signs and number of layers"),
})
