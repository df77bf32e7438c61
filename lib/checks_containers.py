"""Containers: histories of operations validated by TLC against spec/SlidingBuffer.tla and spec/SmallVector.tla."""
from vf import *
import hists

def sliding(profile):
    def run(ctx):
        if profile != "iter":
            ctx.model_check("SlidingImpl", "SPECIFICATION Spec\nCONSTANTS\nVals = {1, 2}\nMaxCap = %d\nINVARIANTS IndicesOk Refines\nCHECK_DEADLOCK FALSE\n" % ctx.pick(3, 4),
                            "the ring of the sliding buffer refines the bounded double-ended queue")
        exe = ctx.compile("h_sliding", ["h_sliding.cc"], ["cat.cc"])
        hists.history_check(ctx, exe, profile, "SlidingHist", {"Asp": '{"%s"}' % profile})
        ctx.assumptions += ["operation histories are those of harness/h_sliding.cc: all short scripts over the modifiers, every fill state (number of elements and position of the first), random longer scripts"]
    return run

CHECKS = {"C10": sliding("access"), "C11": sliding("resize"), "C12": sliding("iter")}

def smallvec(profile):
    def run(ctx):
        exe = ctx.compile("h_smallvec", ["h_smallvec.cc"], ["cat.cc"])
        hists.history_check(ctx, exe, profile, "SmallVectorHist", {"Asp": '{"%s"}' % profile})
        ctx.assumptions += ["operation histories are those of harness/h_smallvec.cc: every operation at every position in every fill state for seven instantiations, random longer scripts, faults in every fallible step (life)"]
    return run

CHECKS.update({"C13": smallvec("seq"), "C14": smallvec("life"), "C15": smallvec("value")})
