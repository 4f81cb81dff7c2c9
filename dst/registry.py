"""Which scenarios decide which property, and how many simulated runs each tier makes."""

from .scen import containers as ct
from .scen import copies as co
from .scen import dist as di
from .scen import draws as dr
from .scen import evaluation as ev
from .scen import functional as fu
from .scen import ga
from .scen import kinds as ki
from .scen import logs as lo
from .scen import nets as ne
from .scen import objects as ob
from .scen import ops as op
from .scen import parts as pa
from .scen import rl
from .scen import rlsearch as rs
from .scen import search as se

REAL_CORE = [
    "evotorch.core (Problem, SolutionBatch, EvaluationActor)",
    "evotorch.tools",
    "ray.util.actor_pool.ActorPool (real source)",
    "PyTorch, NumPy",
]
STUB_RAY = ["ray core (actors, object store, wait/get/kill: simulated scheduler)"]
STUB_CLOCK = ["wall clock"]
A_RAY = "the simulated ray keeps ray's documented semantics: FIFO per actor, arguments copied at submission, errors re-raised at get"
A_CPU = "only CPU tensors are simulated"

PROPERTIES = {}


def prop(id, *scenarios, real=REAL_CORE, stub=STUB_RAY + STUB_CLOCK, assumptions=(), level="exploration"):
    PROPERTIES[id] = {
        "scenarios": [
            {"name": name, "fn": fn, "quick": quick, **({"thorough": rest[0]} if rest else {})}
            for name, fn, quick, *rest in scenarios
        ],
        "real": list(real),
        "stub": list(stub),
        "assumptions": [A_RAY, A_CPU] + list(assumptions),
        "level": level,
    }


prop("C01", ("placement", ev.c01_placement, 3000), ("rowwise", ev.c01_rowwise, 800), real=REAL_CORE + ["evotorch.decorators (rowwise, expects_ndim)"])
prop("C02", ("splitting", ev.c02_splitting, 3000), ("kinds", ki.c02_kinds, 800), real=REAL_CORE + ["evotorch.neuroevolution"])
prop("C03", ("failures", ev.c03_failures, 3000))
prop("C04", ("hooks", ev.c04_hooks, 3000))
prop("C05", ("streams", ev.c05_streams, 2000))
prop("C16", ("kill", ev.c16_kill, 3000))
prop("C20", ("records", ev.c20_records, 3000))
prop("C30", ("sync", ev.c30_sync, 3000))
prop("C32", ("callable", ev.c32_callable, 3000))

prop("C34", ("operators", op.c34_operators, 2500), ("cuts", op.c34_cuts, 600), real=REAL_CORE + ["evotorch.operators"], stub=["ends of the random ranges (loaded draws)"] + STUB_CLOCK)
prop("C35", ("generations", ga.c35_generations, 2500), real=REAL_CORE + ["evotorch.operators", "evotorch.algorithms (GeneticAlgorithm, SteadyStateGA, Cosyne, MAPElites)"])
prop("C36", ("containers", ct.c36_containers, 1500), real=["evotorch.tools.structures (CMemory, CDict, CList, CBag)", "PyTorch"], stub=["content of newly allocated memory"])
prop("C37", ("functional", fu.c37_functional, 2500), ("estimators", fu.c37_estimators, 1000), real=["evotorch.algorithms.functional", "evotorch.distributions", "evotorch.decorators (expects_ndim)", "PyTorch"], stub=["the process which is lost between ask and tell"])
prop("C38", ("objects", ob.c38_objects, 2500), real=["evotorch.tools (objectarray, immutable, readonlytensor, cloning)", "PyTorch", "numpy", "pickle"], stub=["the process which is lost after saving"])
prop("C39", ("collectors", pa.c39_statistics, 2500), real=["evotorch.neuroevolution.net (RunningNorm, RunningStat, ObsNormLayer)", "PyTorch", "pickle"], stub=["broken environments, the process which is lost after saving"])
prop("C40", ("memories", pa.c40_memories, 2500), real=["evotorch.neuroevolution.net (Policy, StatefulModule, RNN, LSTM, LocomotorNet, MultiLayered)", "PyTorch", "pickle"], stub=["the process which is lost after saving"])
prop("C41", ("draws", dr.c41_draws, 2500), real=["evotorch.tools (misc, tensormaker)", "evotorch.core.Problem", "PyTorch"], stub=["the process which is lost after saving"])

REAL_NEURO = REAL_CORE + ["evotorch.algorithms", "evotorch.operators", "evotorch.neuroevolution (NEProblem, GymNE, VecGymNE)"]
prop("C06", ("reproducible", se.c06_reproducible, 1500), ("neuro", rs.c06_neuro, 600), real=REAL_NEURO)
prop("C15", ("resume", se.c15_resume, 1500), ("neuro", rs.c15_neuro, 600), real=REAL_NEURO)
prop("C17", ("protocol", se.c17_protocol, 2000), ("status", se.c17_status, 1500), ("hooks", se.c17_hooks, 1500))
prop("C21", ("coherent", se.c21_coherent, 2000))
prop("C22", ("elitism", se.c22_elitism, 2000))
prop("C23", ("archive", se.c23_archive, 1500))

REAL_DIST = REAL_CORE + ["evotorch.algorithms (PGPE, SNES, CEM, XNES, CMAES, restarters)", "evotorch.distributions", "evotorch.optimizers"]
prop("C07", ("gradients", di.c07_gradients, 1200), ("direct", di.c07_direct, 800), real=REAL_DIST)
prop("C08", ("adaptive", di.c08_adaptive, 1200), ("environments", rl.c08_environments, 800), real=REAL_DIST)
prop("C24", ("limits", di.c24_limits, 1200), ("cma", di.c24_cma, 800), ("pycma", di.c24_pycma, 500), ("optimizers", di.c24_optimizers, 1500), real=REAL_DIST)
prop("C25", ("restart", di.c25_restart, 1200), real=REAL_DIST)

REAL_LOG = REAL_CORE + ["evotorch.algorithms", "evotorch.logging", "pandas"]
prop("C18", ("loggers", lo.c18_loggers, 1500), real=REAL_LOG, stub=STUB_RAY + STUB_CLOCK + ["standard output"])
prop("C19", ("files", lo.c19_files, 1500), real=REAL_LOG, stub=STUB_RAY + STUB_CLOCK + ["file system calls (fault-injecting layer over a scratch directory)"])
prop("C33", ("trackers", lo.c33_trackers, 2000), real=REAL_LOG, stub=STUB_RAY + STUB_CLOCK + ["sacred, mlflow, neptune and wandb clients"])

prop("C14", ("copies", co.c14_copies, 2000), real=REAL_CORE + ["evotorch.neuroevolution.NEProblem"])
prop("C31", ("histories", co.c31_histories, 3000))

REAL_RL = REAL_CORE + ["evotorch.neuroevolution (GymNE, VecGymNE)", "evotorch.neuroevolution.net (rl, vecrl, runningnorm, runningstat)", "gymnasium"]
STUB_RL = STUB_RAY + STUB_CLOCK + ["environments (simulated episodes with scheduled ends)"]
prop("C09", ("totals", rl.c09_totals, 1200), real=REAL_RL, stub=STUB_RL)
prop("C10", ("statistics", rl.c10_statistics, 1200), real=REAL_RL, stub=STUB_RL)
prop("C11", ("episodes", rl.c11_episodes, 1200), real=REAL_RL, stub=STUB_RL)
prop("C12", ("vectorized", rl.c12_vectorized, 1200), real=REAL_RL, stub=STUB_RL)
prop("C13", ("vector", rl.c13_sync_vector_env, 2000), real=REAL_RL, stub=STUB_RL)
prop("C28", ("limits", rl.c28_limits, 1200), real=REAL_RL, stub=STUB_RL)
prop("C29", ("export", rl.c29_export, 1000), real=REAL_RL, stub=STUB_RL)

REAL_NE = REAL_CORE + ["evotorch.neuroevolution (NEProblem, SupervisedNE)", "evotorch.neuroevolution.net", "torch.utils.data"]
prop("C26", ("minibatches", ne.c26_minibatches, 1500), real=REAL_NE)
prop("C27", ("networks", ne.c27_networks, 2000), real=REAL_NE)
