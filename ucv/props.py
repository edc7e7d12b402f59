"""The checks, one function per property."""
from . import gen, models, profiles, run, schema as S
from .run import log

def randoms(ck, scale=1.0, only=None):
    for k, prof in enumerate(profiles.PROFILES.get(ck.pid, [])):
        n = int(prof["n"] * scale * (1 if ck.quick else 12))
        rng = ck.rng("random", k)
        batch = 4000
        done = 0
        while done < n:
            m = min(batch, n - done)
            cs, cfgs = profiles.cases(prof, rng, m)
            ck.conform("random histories %d (%s)" % (k + 1, ",".join(prof["kinds"])), cs, cfgs, crash_only=bool(prof.get("crash")))
            done += m

def replay(ck, rep):
    if rep["type"] == "conform":
        c = rep["case"]; c["cfg"] = 0
        ck.conform("replay", [c], [rep["config"]])
    else: REPLAYS[rep["type"]](ck, rep)
REPLAYS = {"expect": models.replay_expect}

# property -> bounded models: (module, quick constants, thorough constants)
MODELS = {
 "C04": [("MC_Control", None, {"DEPTH2": "TRUE", "NL2": 12})],
 "C05": [("MC_Rules", None, {})],
 "C06": [("MC_Cond", None, {"NEST": 5})],
 "C09": [("MC_Parts", {"MODE": '"host"'}, {"MODE": '"host"', "DEPTH": 1})],
 "C10": [("MC_Parts", None, {"DEPTH": 0})],
 "C11": [("MC_Segs", {"IMAX": 3}, {"IMAX": 6}), ("MC_Mods", {"SEL": '"segments"'}, {"SEL": '"segments"', "LEN": 3}), ("MC_Mats", {"SEL": '"segments"'}, {"SEL": '"segments"', "LEN": 3})],
 "C12": [("MC_Query", {"NTOK": 7}, {"NTOK": 13})],
 "C14": [("MC_Mods", None, {"LEN": 3})],
 "C15": [("MC_Src", None, {"NB": 8})],
 "C16": [("MC_Mats", None, {"LEN": 3})],
 "C19": [("MC_Refs", None, {"STRIDE": 13}), ("MC_Html", {"NT": 3}, {"NA": 5, "NT": 5, "NJ": 4})],
}
def bounded(ck):
    for module, quick, thorough in MODELS.get(ck.pid, []): models.mc(ck, module, quick if ck.quick else thorough, timeout=800 if ck.quick else 3600)
def standard(ck):
    bounded(ck); randoms(ck)

CHECKS = {}; NOTES = {}
for _p in profiles.PROFILES: CHECKS[_p] = standard
def c15(ck):
    models.partitionings(ck, 2 if ck.quick else 3)
    standard(ck)
CHECKS["C15"] = c15
def c16(ck):
    models.mc(ck, "MC_Regex", rx=models.rx_variants())
    standard(ck)
CHECKS["C16"] = c16

from . import pipeline
CHECKS["C01"] = pipeline.c01
REPLAYS["schedule"] = pipeline.replay_schedule
CHECKS["C02"] = pipeline.c02
REPLAYS["report"] = pipeline.replay_report
from . import iso, commands
CHECKS["C21"] = commands.c21
REPLAYS["pipes"] = commands.replay_pipes
CHECKS["C03"] = iso.c03
REPLAYS["job"] = iso.replay_job
REPLAYS["netjob"] = iso.replay_netjob
from . import params
CHECKS["C13"] = params.c13
REPLAYS["params"] = params.replay_params
REPLAYS["args"] = params.replay_args
from . import caching
CHECKS["C07"] = caching.c07_all
REPLAYS["runs"] = caching.replay_runs
from . import net
CHECKS["C18"] = net.c18
from . import store
CHECKS["C08"] = store.c08
REPLAYS["store"] = store.replay
from . import default
CHECKS["C17"] = default.c17
REPLAYS["settles"] = default.replay_settles
REPLAYS["program"] = default.replay_program
REPLAYS["silent"] = net.replay_silent
from . import notation
CHECKS["C20"] = notation.c20
REPLAYS["c20"] = notation.replay
NOTES.update({
    "C01": "all schedules of up to 3 workers and 5 tasks explored by TLC (safety and liveness); a picked set of schedules is driven into the real binary by a scheduler shim, larger runs are sampled",
    "C02": "every mix of up to 4 task outcomes explored by TLC in text and JSON mode; each behaviour replayed on the real binary",
    "C03": "non-interference is an invariant of the specification on all pairs of tasks in bounded jobs; replayed on the real binary with several thread counts, plus random jobs validated against Interp",
    "C07": "all histories up to the bound over 3 categories x 4 keys, also over several runs of the program; replayed on the code; random histories validated against Interp",
    "C08": "every interleaving and crash point of two writers and a reader in Store.tla; crash points and lock orders driven into the real program, file contents compared with the specification",
    "C17": "Clean() for unlisted hosts and the documented site flags are explored in bounded models; the whole default configuration is interpreted by the specification on recorded runs (sampled URLs)",
    "C21": "every order of up to L reads and writes of a command against bounded pipes explored by TLC for deadlock and for what is had, each run for real; every combination of arguments, environment, directory, STDIN and ends in a bounded model replayed; random commands and jobs validated against Interp",
    "C20": "every type and variant in its shortest and longest form and every single change of them explored by TLC and loaded by the code; whole configurations and their behaviour sampled",
    "C18": "all answers up to the bound of two scripted servers explored by TLC and replayed; random request programs and the default configuration validated against Interp",
})
