"""String functions: theorems of the definitions on a bounded domain, and recorded calls validated by TLC."""
from vf import *
import recs

SRC = {"escape": ["escape.cc", "string_util.cc"], "split": ["string_util.cc"], "tokenize": ["string_util.cc"], "replace": ["replace.cc"],
       "trim": ["trim.cc", "string_util.cc"], "sub": ["case_ascii.cc"], "sview": [], "cat": ["cat.cc", "string_util.cc"], "hex": ["string_util.cc"]}

# family -> (alphabet, max length of s, max length of d, theorems)
THEOREMS = {
    "escape": ("{34, 92, 120, 110, 48, 97, 1, 127, 200}", (4, 5), (0, 0), ["EscapeRoundTrip", "EscapePrintable"]),
    "split": ("{97, 98, 44}", (6, 7), (3, 3), ["JoinSplit", "SplitCount"]),
    "tokenize": ("{97, 98, 32}", (6, 8), (2, 3), ["TokensClean"]),
    "replace": ("{97, 98}", (7, 9), (3, 4), ["ReplaceId", "ReplaceIsJoinSplit"]),
    "trim": ("{97, 98, 32}", (6, 8), (2, 3), ["TrimIdem", "TrimCommutes"]),
    "sub": ("{97, 98, 65}", (6, 7), (3, 3), ["AffixImpliesContains", "ContainsIff"]),
    "sview": ("{97, 98, 200}", (5, 6), (3, 4), ["FindFirstLast", "CompareTotal", "ContainsIff"]),
}

def text_check(fam):
    def run(ctx):
        th = THEOREMS.get(fam)
        if th:
            i = 0 if ctx.quick else 1
            ctx.model_check("TextFnsMC", "SPECIFICATION Spec\nCONSTANTS\nAlpha = %s\nMaxLen = %d\nMaxLen2 = %d\n%s\nCHECK_DEADLOCK FALSE\n" % (
                th[0], th[1][i], th[2][i], "\n".join("INVARIANT " + x for x in th[3])), "theorems " + ",".join(th[3]))
        exe = ctx.compile("h_text", ["h_text.cc"], SRC[fam], flags=["-DFAMILY=F_" + fam, "-DFAM=fam_" + fam])
        recs.record_check(ctx, exe, fam, "TextRec", "TextOk")
        ctx.assumptions += ["TLC's evaluation of spec/TextFns.tla is the oracle; inputs are the enumerated and seeded strings of harness/h_text.cc",
                            "AddressSanitizer/UBSan reports of the same calls count as violations"]
    return run

CHECKS = {"C21": text_check("escape"), "C22": text_check("split"), "C23": text_check("tokenize"), "C24": text_check("replace"),
          "C25": text_check("trim"), "C26": text_check("sub"), "C27": text_check("sview"), "C28": text_check("cat"), "C29": text_check("hex")}
