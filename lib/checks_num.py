"""Numeric functions: recorded calls validated by TLC against spec/NumFns.tla."""
from vf import *
import recs

def num_check(fam):
    def run(ctx):
        exe = ctx.compile("h_num", ["h_num.cc"], ["to_number.cc"] if fam in ("tonum", "tofloat") else [], flags=["-DFAMILY=F_" + fam, "-DFAM=fam_" + fam])
        recs.record_check(ctx, exe, fam, "NumRec", "NumOk")
        ctx.assumptions += ["TLC's evaluation of spec/NumFns.tla is the oracle; inputs are those of harness/h_num.cc"]
        if fam == "tofloat":
            ctx.assumptions.append("the C library's strtof/strtod/strtold give the correctly rounded value that the distance in representable steps is measured from")
    return run

def date_check(ctx):
    num_check("date")(ctx)
    exe = ctx.compile("h_date", ["h_date.cc"], [])
    recs.record_check(ctx, exe, "calendar", "CalRec", "CalOk")
    ctx.assumptions += ["TLC's evaluation of spec/Calendar.tla is the oracle; operands are those of harness/h_date.cc"]

CHECKS = {"C30": num_check("tonum"), "C31": num_check("tofloat"), "C32": num_check("bits"), "C33": num_check("gcd"), "C34": num_check("stats"), "C35": date_check}

def datetext_check(ctx):
    exe = ctx.compile("h_datetext", ["h_datetext.cc"], [])
    recs.record_check(ctx, exe, "datetext", "CalTextRec", "CalTextOk")
    ctx.assumptions += ["TLC's evaluation of spec/CalText.tla is the oracle; values and formats are those of harness/h_datetext.cc", "the C locale of the C++ library writes the locale-dependent fields as POSIX says"]

CHECKS["C39"] = datetext_check

def dateparse_check(ctx):
    exe = ctx.compile("h_dateparse", ["h_dateparse.cc"], [])
    recs.record_check(ctx, exe, "dateparse", "CalTextRec", "CalTextOk")
    ctx.assumptions += ["TLC's evaluation of spec/CalParse.tla is the oracle; formats and texts are those of harness/h_dateparse.cc"]

CHECKS["C40"] = dateparse_check
