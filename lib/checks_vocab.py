"""Vocabulary types: histories of operations validated by TLC against spec/Optional.tla, Expected.tla, Variant.tla, Finalizer.tla and Span.tla."""
from concurrent.futures import ThreadPoolExecutor
from vf import *
import hists

def vocab(harness, module, builds=(("all", {}),)):
    """builds: (profile, arguments for the compiler)"""
    def run(ctx):
        with ThreadPoolExecutor(len(builds)) as ex:
            exes = list(ex.map(lambda b: ctx.compile(harness + "-" + b[0], [harness + ".cc"], ["cat.cc"], **b[1]), builds))
        for exe, (profile, _) in zip(exes, builds):
            if not hists.history_check(ctx, exe, profile, module, {}):
                break
        ctx.assumptions += ["operation histories are those of harness/%s.cc: every operation in every initial state with a fault in every fallible step, pairs of operations, random longer histories" % harness]
    return run

CHECKS = {
    "C16": vocab("h_optional", "OptionalHist"),
    "C17": vocab("h_expected", "ExpectedHist"),
    "C18": vocab("h_variant", "VariantHist", tuple(("mix%d" % i, {"flags": ["-DPART=%d" % i]}) for i in (1, 2, 3, 4)) + (("pick", {"flags": ["-DPICK"], "san": False, "opt": "-O0"}), ("many", {"flags": ["-DMANY", "-fsanitize=unreachable", "-fsanitize-trap=unreachable"], "san": False, "opt": "-O0"}))),
    "C19": vocab("h_finalizer", "FinalizerHist"),
    "C20": vocab("h_span", "SpanHist"),
}
