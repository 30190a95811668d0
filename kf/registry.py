"""Which function decides which property."""
from functools import partial

from . import compile_checks as cc

CHECKS, REPLAYS = {}, {}
for p in cc.FAMILIES:
    CHECKS[p] = partial(lambda prop, ctx: cc.check(ctx, prop), p)
    REPLAYS[p] = partial(lambda prop, ctx, cases: cc.replay_cases(ctx, prop, cases), p)

from . import cli_checks as cli   # noqa
for p in ("C22", "C23"):
    CHECKS[p] = partial(lambda prop, ctx: cli.check(ctx, prop), p)
    REPLAYS[p] = partial(lambda prop, ctx, cases: cli.replay(ctx, prop, cases), p)

from . import lib_checks as lib   # noqa
CHECKS.update(C17=lib.check_robust, C19=lib.check_sessions, C20=lib.check_listener, C21=lib.check_artifacts, C24=lib.check_modes,
              C26=lib.check_lookup, C27=lib.check_objects)
REPLAYS.update(C17=lib.replay_robust, C19=lib.replay_sessions, C20=lambda ctx, cases: lib.judge_listener(ctx, [c["ops"] for c in cases]),
               C21=lambda ctx, cases: lib.artifacts(ctx, [c["src"] for c in cases]), C24=lib.replay_modes, C26=lib.replay_lookup,
               C27=lib.replay_objects)

from . import wasm_checks as wasm   # noqa
CHECKS["C25"], REPLAYS["C25"] = wasm.check, wasm.replay


# technique and note of each check, for the manifest
T = "TLA+ model checking (TLC) with conformance checking: "
SRC = ("TLC runs the specified compiler on every source of the family (KfGen) and checks %s; every source is replayed on the real compiler, and TLC judges "
       "recorded runs of the real compiler on random documents (KfTrace)")
N = ("Exhaustive over the bounded family of sources, sampled beyond it. Trusts spec/*.tla as the meaning of the documentation, TLC, the adapter, and for SQL texts outside the "
     "catalogue the SQL library's own verdict.")
ABOUT = {i: (T + SRC % what, N) for i, what in {
    "C01": "SameShape and agreement with the declarative schema of tables, columns and constraints",
    "C02": "SameShape and agreement with the declarative schema of indexes and foreign keys",
    "C03": "SameShape and agreement with the declarative signature of every action",
    "C04": "ReadBack: stored statements lex back to the tokens written",
    "C05": "SameShape and agreement with the declarative extensions",
    "C06": "agreement with the declarative annotations, which the real reader then has to read back",
    "C07": "InitLast and that the schema depends on the order within each kind only",
    "C08": "UniqueNames", "C09": "RefsResolve", "C10": "TypesFit", "C11": "CallsResolve", "C12": "VarsDefined and ScopeExact",
    "C13": "NoConflicts", "C14": "SqlChecked", "C15": "the grammar as a push-down machine (syntax verdict)",
    "C16": "LayoutFree: meaning does not depend on layout", "C18": "MachineAgrees: kinds and position of the first fault",
}.items()}
ABOUT.update({
    "C17": (T + "KfRobust generates byte-level inputs and requires an answer and continued service (Serves, NeverDown); each is fed to a real parser process and the recorded outcomes are judged by TLC (KfRobustTrace)",
            "Byte edits of five base texts, raw bytes, repetition and nesting up to bounds, and random damage; not all byte strings. Two unrepaired findings are listed."),
    "C19": (T + "KfSession (concurrent clients, shared tables, result heap) is checked for safety and liveness; its histories are replayed on one process and compared with fresh processes; concurrent parses run in a race-detecting build",
            "Real interleavings are sampled (race detector, several fresh processes); histories are exhaustive to length 2 (3) over the pool."),
    "C20": (T + "KfListener's step relation; all histories up to a length and random ones are run on a real listener and judged step by step by TLC (KfListenerTrace)",
            "Histories of 2 (3) operations exhaustively over 10 sources and 2 errors, longer ones sampled."),
    "C21": (T + "KfArtifact (documented shape; writing and reading are inverse) checked on every compiled schema; recorded JSON texts and object trees of the real code are judged by TLC (KfArtifactTrace)",
            "All accepted sources of the families, and random documents; adapter's reflection dump is trusted."),
    "C22": (T + "KfCli (stages of the command, world of files, failing calls, kills, runs on the remains; Artifact, Recovers); every world and run is built and executed with the real binary",
            "Exhaustive over the modelled worlds; faults are injected by strace where it can run."),
    "C23": (T + "KfCli (Codes, NoDamage, SaysSo); every world, failing call and kill point is built and executed with the real binary",
            "Exhaustive over the modelled worlds; faults are injected by strace where it can run."),
    "C24": (T + "KfSession (WayIsDiagnostic, PrintsOnDemand) and the flag cases of KfCli; every source is parsed by the real code in every mode, every spelling of the flag is run with the real binary",
            "All sources of pool and families at a stride, random and damaged ones."),
    "C25": (T + "KfWasm (KeepsRunning, answers as native); its call histories are run on real instances under node and compared with the native parser",
            "Histories of bounded length over the pool; random and damaged sources on long-lived instances. One unrepaired finding is listed."),
    "C26": (T + "KfLookup; TLC enumerates case variants and near words of every keyword with the allowed answers, each is put to the real lookups",
            "All 2^n case variants of every keyword, words at distance one, words of the other kinds and of a dictionary."),
    "C27": (T + "the schema object KfSem gives for a source has the source's verdict; objects of all semantic families are put to the real validator, and accepted sources are validated again after a JSON round trip",
            "Objects built from the model's schemas in several shapes, and round trips of random documents."),
})
