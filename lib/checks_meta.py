"""Metaprogramming helpers: recorded uses validated by TLC against spec/MetaFns.tla."""
from vf import *
import recs

def meta_check(fam):
    def run(ctx):
        exe = ctx.compile("h_meta", ["h_meta.cc"], [], flags=["-DFAMILY=F_" + fam, "-DFAM=fam_" + fam], opt="-O0")
        recs.record_check(ctx, exe, fam, "MetaRec", "MetaOk")
        ctx.assumptions += ["TLC's evaluation of spec/MetaFns.tla is the oracle; types and arguments are those of harness/h_meta.cc"]
        if fam == "tname":
            ctx.assumptions.append("the spelling of types is the one of the installed compiler")
    return run

CHECKS = {"C37": meta_check("invoke"), "C38": meta_check("tname")}
