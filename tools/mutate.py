#!/usr/bin/env python3
"""Mutation sweep over a scratch copy (development tool; no check uses it).

  mutate.py SCRATCH PER_FILE SEED [file-substring ...]

SCRATCH/repo and SCRATCH/verif are copies of the two repositories. Every mutant is one token changed in one line of one
original source file; each property that covers the file is run until one of them reports a violation.
"""
import json, os, random, re, subprocess, sys, time

S, PER, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILTER = sys.argv[4:]
COVER = {
    "trajopt_ifopt/src/core/bounds.cpp": ["P01"],
    "trajopt_ifopt/src/utils/ifopt_utils.cpp": ["P01"],
    "trajopt_ifopt/src/utils/trajopt_utils.cpp": ["P04", "P01"],
    "trajopt_ifopt/src/constraints/joint_position_constraint.cpp": ["P02"],
    "trajopt_ifopt/src/constraints/joint_velocity_constraint.cpp": ["P02"],
    "trajopt_ifopt/src/constraints/joint_acceleration_constraint.cpp": ["P02"],
    "trajopt_ifopt/src/constraints/joint_jerk_constraint.cpp": ["P02"],
    "trajopt_ifopt/src/costs/squared_cost.cpp": ["P03"],
    "trajopt_ifopt/src/costs/absolute_cost.cpp": ["P03"],
    "trajopt_ifopt/src/variable_sets/nodes_variables.cpp": ["P04"],
    "trajopt_ifopt/src/variable_sets/node.cpp": ["P04"],
    "trajopt_ifopt/src/variable_sets/var.cpp": ["P04"],
    "trajopt_ifopt/src/core/composite.cpp": ["P05", "P06"],
    "trajopt_ifopt/src/core/problem.cpp": ["P06", "P05"],
    "trajopt_ifopt/src/core/constraint_set.cpp": ["P05", "P04"],
    "trajopt_ifopt/src/core/component.cpp": ["P05"],
    "trajopt_ifopt/src/core/cost_term.cpp": ["P05", "P06"],
    "trajopt_ifopt/src/utils/numeric_differentiation.cpp": ["P06"],
    "trajopt_optimizers/trajopt_sqp/src/expressions.cpp": ["P07"],
    "trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp": ["P09", "P08"],
    "trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp": ["P10"],
    "trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp": ["P12", "P11"],
    "trajopt_optimizers/trajopt_sqp/src/types.cpp": ["P12", "P11"],
    "trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp": ["P25"],
    "trajopt_sco/src/expr_ops.cpp": ["P13"],
    "trajopt_sco/src/expr_vec_ops.cpp": ["P13"],
    "trajopt_sco/src/solver_utils.cpp": ["P14"],
    "trajopt_sco/src/modeling.cpp": ["P18", "P15"],
    "trajopt_sco/src/modeling_utils.cpp": ["P17", "P16"],
    "trajopt_sco/src/num_diff.cpp": ["P17"],
    "trajopt_sco/src/solver_interface.cpp": ["P21", "P15", "P13"],
    "trajopt_sco/src/bpmpd_interface.cpp": ["P20", "P19"],
    "trajopt_sco/src/osqp_interface.cpp": ["P24"],
    "trajopt_sco/src/optimizers.cpp": ["P27"],
    "trajopt/src/json_marshal.cpp": ["P21"],
    "trajopt/src/trajectory_costs.cpp": ["P26"],
    "trajopt/src/utils.cpp": ["P26"],
    "trajopt_common/src/collision_types.cpp": ["P28"],
    "trajopt_common/src/collision_utils.cpp": ["P28", "P29"],
    "trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp": ["P29"],
    "trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp": ["P29"],
    "trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp": ["P29"],
    "trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp": ["P29"],
    "trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp": ["P29"],
    "trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp": ["P30"],
    "trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp": ["P30"],
    "trajopt/src/kinematic_terms.cpp": ["P31"],
    "trajopt/src/collision_terms.cpp": ["P33"],
    "trajopt/src/problem_description.cpp": ["P34", "P35"],
    "trajopt/include/trajopt/cache.hxx": ["P33"],
    "trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp": ["P32"],
    "trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp": ["P32"],
    "trajopt_ifopt/src/constraints/inverse_kinematics_constraint.cpp": ["P32"],
    "trajopt_common/include/trajopt_common/utils.hpp": ["P23"],
    "trajopt_common/include/trajopt_common/basic_array.h": ["P23"],
    "trajopt_common/include/trajopt_common/collision_types.h": ["P22", "P28"],
}
EXTRA = os.environ.get("MUT_EXTRA")
if EXTRA:
    COVER.update(json.loads(EXTRA))
REPL = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "),
        (" * ", " / "), (" && ", " || "), (" || ", " && "), ("true", "false"), ("false", "true"), ("std::max", "std::min"), ("std::min", "std::max"),
        (" += ", " -= "), (" -= ", " += "), (" += ", " = "), ("push_back", "emplace_back"), (" + 1", ""), (" - 1", ""), ("continue;", "break;"), ("break;", "continue;"),
        ("= 0;", "= 1;"), ("= 1;", "= 0;"), ("-1 *", "1 *"), ("(-", "("), ("0.5", "1.0"), ("2.0", "1.0"), ("upper", "lower"), ("lower", "upper"),
        ("row", "col"), ("first", "second"), ("second", "first"), ("[0]", "[1]"), ("[1]", "[0]"), ("!", ""), ("DELETE", ""), ("COND1", ""), ("COND0", "")]


def mutants(path):
    out = []
    ls = open(path).read().split("\n")
    comment = False
    for i, l in enumerate(ls):
        t = l.strip()
        if "/*" in t:
            comment = True
        if comment:
            if "*/" in t:
                comment = False
            continue
        if not t or t.startswith(("//", "#", "throw", "CONSOLE", "LOG_", "std::cout", "std::printf", "assert", "static_assert", "*", "using", "namespace", "template", "return std::make", "PRINT", "std::snprintf", "ss <<", "os <<", "o <<", "out <<")):
            continue
        if any(w in t for w in ("printf", "CONSOLE_BRIDGE", "LOG_", "throw ", "stream", "assert(", "runtime_error")):
            continue
        code = l.split("//")[0]
        for a, b in REPL:
            if a == "push_back":
                continue
            if a == "DELETE":
                if re.match(r"^\s+[\w\.\->\[\]\(\)\*]+(\(.*\)| [+\-*]?= .*);$", code) and not re.match(r"^\s*(return|const|auto|int|double|std::\S+|Eigen::\S+|break|continue)\s", code):
                    out.append((i, l, re.match(r"\s*", l).group(0) + ";"))
                continue
            if a in ("COND1", "COND0"):
                m = re.match(r"^(\s*(?:else )?if \()(.+)(\)\s*\{?)$", code)
                if m and code.count("(") == code.count(")"):
                    out.append((i, l, m.group(1) + ("true || (" if a == "COND1" else "false && (") + m.group(2) + ")" + m.group(3)))
                continue
            for m in re.finditer(re.escape(a), code):
                if a == "!" and code[m.end():m.end() + 1] == "=":
                    continue
                n = code[:m.start()] + b + code[m.end():]
                if n != code:
                    out.append((i, l, n))
    return out


env = dict(os.environ, VERIF_REPO=S + "/repo", VERIF_BUILD=S + "/build")
rng = random.Random(SEED)
log = open(f"{S}/mut_{SEED}.log", "a")
for f, props in COVER.items():
    if FILTER and not any(x in f for x in FILTER):
        continue
    path = f"{S}/repo/{f}"
    if not os.path.exists(path):
        print("missing", f)
        continue
    ms = mutants(path)
    rng.shuffle(ms)
    text = open(path).read()
    n = 0
    for i, old, new in ms:
        if n >= PER:
            break
        ls = text.split("\n")
        ls[i] = new
        open(path, "w").write("\n".join(ls))
        t = time.time()
        res = []
        try:
            for p in props:
                r = subprocess.run(["timeout", "500", "nice", "python3-vt", "run.py", "check", p], cwd=S + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                res.append(f"{p}={r.returncode}")
                if "ERROR property" in r.stdout and "build:" in r.stdout:
                    res = ["NOBUILD"]
                    break
                if r.returncode == 1:
                    break
                if r.returncode != 0:
                    res.append([x for x in r.stdout.split("\n") if x][-2:][0][:200])
        finally:
            open(path, "w").write(text)
        if res == ["NOBUILD"]:
            continue
        n += 1
        st = "KILLED " if any(x.endswith("=1") for x in res) else ("SURVIVE" if all(x.endswith("=0") for x in res) else "UNSURE ")
        log.write(f"{st} {f}:{i+1} {time.time()-t:.0f}s {' '.join(res)}\n    - {old.strip()}\n    + {new.strip()}\n")
        log.flush()
        subprocess.run("find %s/build -type f -mmin +20 -not -name 'SymPass*' -not -name 'runtime*' -not -name 'native*' -size +1k -amin +20 -delete" % S, shell=True)
