"""Which harnesses decide which property."""


def H(file, name, **kw):
    return dict(file=file + ".cpp", name=name, **kw)


PROPS = {
    "P01": dict(harnesses=[H("bounds", "classify"), H("bounds", "errors", labels=["error-below", "error-above"]),
                           H("bounds", "clamp"), H("bounds", "clamp_fp", mode="fp"), H("bounds", "tobounds"), H("bounds", "interp")]),
    "P02": dict(harnesses=[H("joints", n) for n in ("position", "velocity", "acceleration", "jerk", "rejects")]),
    "P03": dict(harnesses=[H("costs", "squared"), H("costs", "absolute")]),
    "P04": dict(harnesses=[H("variables", "layout"), H("variables", "trajectory"), H("variables", "observers"), H("variables", "variable_refusals")]),
    "P05": dict(harnesses=[H("costs", "composite"), H("costs", "composite_sum"), H("costs", "problem"), H("costs", "history")]),
    "P06": dict(harnesses=[H("costs", "problem_fd"), H("costs", "numjac"), H("costs", "numgrad"), H("costs", "numgrad_set")]),
    "P07": dict(harnesses=[H("sqp_expr", n) for n in ("affine", "square", "quadratic")]),
    "P08": dict(harnesses=[H("qp_trajopt", n) for n in ("structure", "relinearise", "box", "rejects")]),
    "P09": dict(harnesses=[H("qp_trajopt", "evaluate")]),
    "P10": dict(harnesses=[H("qp_ifopt", n) for n in ("structure", "evaluate", "touch", "box", "rejects")]),
    "P11": dict(harnesses=[H("sqp_solver", n) for n in ("steps", "fraction", "penalties", "upload", "verbose")]),
    "P12": dict(harnesses=[H("sqp_solver", n) for n in ("failures", "limits")]),
    "P13": dict(harnesses=[H("sco_expr", n) for n in ("affine", "quadratic", "products", "squares", "cleanup")]),
    "P14": dict(harnesses=[H("sco_expr", n) for n in ("sparse_affine", "sparse_quadratic", "sparse_rows", "triplets", "simplify")]),
    "P15": dict(harnesses=[H("sco_modeling", n) for n in ("objective", "lifecycle", "constraints")]),
    "P16": dict(harnesses=[H("sco_modeling", n) for n in ("cost_from_error", "constraint_from_error", "cost_from_function", "cost_from_function_full")]),
    "P17": dict(harnesses=[H("sco_modeling", n) for n in ("derivatives",)]),
    "P18": dict(harnesses=[H("sco_modeling", n) for n in ("problem_bounds", "problem_qp", "problem_terms")]),
    "P19": dict(harnesses=[H("bpmpd", n) for n in ("encode", "history")]),
    "P20": dict(harnesses=[H("bpmpd", n) for n in ("pipes",)]),
    "P21": dict(harnesses=[H("text_config", n) for n in ("solver_names", "solver_selection", "json_values")]),
    "P22": dict(harnesses=[H("common", n) for n in ("cache",)]),
    "P23": dict(harnesses=[H("common", n) for n in ("arrays", "slices", "interpolation")]),
    "P24": dict(harnesses=[H("osqp", n) for n in ("encode", "resolve", "history")]),
    "P25": dict(harnesses=[H("osqp_eigen", n) for n in ("history", "assemble", "outcomes", "warm_start")]),
    "P26": dict(harnesses=[H("traj_costs", n) for n in ("eq_costs", "ineq_costs", "eq_constraints", "ineq_constraints", "trajectory_arrays", "joint_subsets")]),
    "P27": dict(harnesses=[H("sco_optimizer", n) for n in ("steps", "fraction", "subproblem", "penalties", "failures", "limits", "box", "misuse", "log_failure")]),
    "P28": dict(harnesses=[H("collision_data", n) for n in ("coefficients", "coefficient_equality", "filter_contacts", "gradient_state", "gradient_motion", "worst_errors")]),
    "P29": dict(harnesses=[H("collision_constraints", n) for n in ("state", "motion", "every_contact", "numeric", "refusals", "set_bounds")]),
    "P30": dict(harnesses=[H("collision_evaluators", n) for n in ("single_state", "subdivision", "motion_contacts", "evaluator_types")]),
    "P31": dict(harnesses=[H("kinematic_terms", n) for n in ("joint_velocity", "joint_acceleration", "joint_jerk", "total_time", "pose", "pose_banded",
                                                            "pose_dynamic", "pose_refusals", "cartesian_velocity")] +
                          [H("kinematic_release", n) for n in ("singularity_one", "singularity_two")]),
    "P32": dict(harnesses=[H("cartesian", n) for n in ("pose", "pose_analytic", "refusals", "line", "line_analytic", "line_turning", "inverse_kinematics")]),
    "P33": dict(harnesses=[H("legacy_collision", n) for n in ("one_contact", "contacts", "legacy_subdivision", "legacy_types", "legacy_history",
                                                             "legacy_cache")]),
    "P34": dict(harnesses=[H("problem", n) for n in ("construction", "joint_term_steps", "joint_term_parameters", "time_terms", "pose_terms",
                                                      "step_terms", "collision_terms", "results")]),
    "P35": dict(harnesses=[H("problem", n) for n in ("json_sections", "json_terms", "json_several", "user_defined_from_json")]),
    "P36": dict(harnesses=[H("settings", n) for n in ("sqp_parameters", "sco_parameters", "collision_config")]),
    "P37": dict(harnesses=[H("qpoases", n) for n in ("encode", "resolve", "history")]),
    "P39": dict(harnesses=[H("gurobi", n) for n in ("encode", "history")]),
    "P38": dict(harnesses=[H("settings", n) for n in ("archived", "yaml", "yaml_partial", "yaml_malformed")]),
    "P40": dict(harnesses=[H(f, "threads") for f in ("osqp", "bpmpd", "qpoases", "gurobi")]),
    "P41": dict(harnesses=[H("reports", n) for n in ("file_rows", "pictures")] + [H("legacy_collision", "drawn")] +
                          [H("sqp_reports", n) for n in ("joint_states", "pose_errors", "clear_and_wait")]),
    "P42": dict(harnesses=[H("printing", n) for n in ("expressions", "model_file", "results", "sqp_results", "step_table",
                                                      "log_files", "sqp_table", "listing")]),
}
