from . import props_mesh, props_num


def mc_cov(run):
    return {"states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.traces,
            "samples": run.samples or run.notes[:3], "exploration": run.notes}


def exp_cov(run):
    return {"evaluations": run.evaluations, "distinct_nontrivial": len(run.distinct), "rule": getattr(run, "rule", ""),
            "samples": run.samples[:3], "states": run.states, "transitions": run.transitions,
            "traces_validated_against_impl": run.traces, "exploration": run.notes}


CHECKS = {}
MESH_TECH = "TLA+ model (TLC) + trace validation of real executions against it"
MESH_NOTE = ("TLC exhausts the mesh model for small bounds and checks the declarative invariants on it; the histories it "
             "visits and seeded random/extreme ones are executed on the library and every recorded state is compared "
             "with the specification's state by a TLC trace specification")
for _p, _f in props_mesh.CHECKS.items():
    CHECKS[_p] = {"run": _f, "level": "model_checking", "coverage": mc_cov, "technique": MESH_TECH, "note": MESH_NOTE,
                  "assumptions": ["coordinates are compared after scaling to integers with a tolerance of 1e-6 of the unit"]}

NUM_TECH = "TLA+ specification with exact rational arithmetic + trace validation (TLC) of recorded library results"
NUM_NOTES = {
    "C11": "TLC proves tangential continuity of the specified degrees of freedom in exact arithmetic on all small meshes; on "
           "the library's domains the traces of every degree of freedom are recorded on both sides of every interface",
    "C13": "assembly runs with exact integer-valued kernels passed through the public traits; every entry is compared with "
           "the sum the specification forms over its own cells, so the comparison is exact",
    "C14": "single integrals and assembled matrices are compared with exact rational integrals of the specified functions",
    "C15": "TLC explores every interleaving of requests on the shared, poisonable cache; recorded histories of clones in several "
           "threads, with a basis type that notes its constructions and can panic, are judged event by event",
    "C16": "random histories of every operation on several matrices; every read is compared with the exact symmetric sum the "
           "specification holds",
    "C17": "dense matrices and the bytes of PETSc files are decoded by the specification and compared entry by entry",
    "C18": "TLC explores several calls sharing one directory with every fault at every step; real calls run against a stand-in for "
           "mpiexec that notes what it is given and ends as planned, and the specification judges answer, files and command line",
    "C19": "the returned pair is judged in exact arithmetic: residual, and by Sylvester's law of inertia that no eigenvalue of the "
           "pencil is nearer to the target; error outcomes are predicted by the specification",
    "C20": "fields read back from the VTK file are compared with exact sums over the specified cells and their ancestors",
    "C21": "a state machine of quantities follows every operation; exported files are parsed and judged token by token",
    "C24": "shape functions and vector basis functions are compared with exact polynomial values at the recorded points",
    "C25": "TLC explores every interleaving of workers, channel and collector; par_extend and the assembly run in thread pools "
           "of many sizes over many kinds of parallel streams and must give the exact sum",
    "C26": "TLC proves in exact arithmetic that face and edge terms of all function pairs up to an order add up to the integral; "
           "the library's face, edges and sums are compared with those exact terms",
    "C27": "TLC checks the laws of the specified algebra and order on all small matrices and nearby coordinates; the library's "
           "results on random and nearly coincident operands are compared with them in exact arithmetic",
    "C30": "TLC proves independence, the number of curl-free fields and that refinement loses nothing on the specified degrees of "
           "freedom of all small meshes, with exact scalar products; on the library's assembled matrices the signs of the eigenvalues of "
           "A - x B are decided in exact arithmetic (Sylvester's law of inertia) and compared between the states of growing histories",
    "C31": "the eigenvalues of the library's assembled problem are counted in exact arithmetic just below and above every resolved "
           "resonance of the cavity and must be those of the closed formula, each once, with the predicted number of zeros and no others",
    "C23": "every recorded rule is walked by the specification through all Legendre moments up to degree 2n-1 in exact arithmetic",
}
for _p, _f in props_num.CHECKS.items():
    CHECKS[_p] = {"run": _f, "level": "exploration", "coverage": exp_cov, "technique": NUM_TECH, "note": NUM_NOTES[_p],
                  "assumptions": ["floating-point results are accepted within a tolerance far above rounding error (stated in the specification)"]}
