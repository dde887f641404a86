"""Writes known-findings.txt: one 'fixed:' line per repair committed in /repo (and the 'known:' lines from tools/known.txt, if any)."""
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    ("verbose matching reported|copy of a Matcher", "C39"),
    ("ColumnSet::write panicked|make_ints and make_floats", "C38"),
    ("text without any digit|comparison of strings depended", "C37"),
    ("spilled sort run starting", "C03"), ("malformed expressions such|factorial of NaN", "C20"),
    ("Reader opened on a second", "C34"),
    ("header modes strip", "C33"),
    ("sample panicked|uniq panicked aggregating|number formats|text formats with a delimiter other|binsearch panicked|binsearch with a huge context|line numbers starting|sort panicked when no temporary", "C26"),
    ("^verify|whole lines were compared", "C27"), ("^tabs", "C28"), ("^filegen", "C29"), ("tooltest", "C30"), ("--agg-help panicked", "C26"),
    ("reversed keys were|whole-line sort keys|sort keys differing|numeric sort ordered", "C01"),
    ("numeric comparison ignored|float ordering|sort by random|comparisons of single values", "C05"),
    ("sort -m ignored|merging was not", "C04"), ("sort --check", "C06"), ("did not fit in what was left", "C03"),
    ("uniq without a key|did not split lines", "C07"), ("aggregator|merge delimiters", "C08"),
    ("integer suffixes|integers and exponents|decimal fractions", "C21"), ("^join|output files kept", "C09"),
    ("column matchers could|plus sign inside|no columns at all|counting a single column|column list selecting|column name without", "C10"),
    ("could not be transformed|normspace|output delimiters inside|aliases of transforms", "C11"), ("glob skipped", "C14"),
    ("mixed files with and without", "C22"), ("^cat ", "C13"), ("paste|a value for a column", "C12"),
    ("matcher|UTF-8 only matched|thresholds|ranges such as", "C14"), ("sampl", "C16"), ("transposing", "C17"), ("^wc ", "C18"), ("binsearch", "C19"),
    ("headers and gzip", "C23"), ("errors writing", "C24"), ("delimite|--text-in|quot|backslash", "C25"),
    ("expression|acos|factorial|operators", "C20"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
    out = ["# Findings of these checks. 'fixed:' lines record repairs committed in /repo and suppress nothing."]
    extra = os.path.join(V, "tools", "known.txt")
    if os.path.exists(extra):
        out += [x for x in open(extra).read().split("\n") if x]
    for line in log.split("\n"):
        h, _, s = line.partition(" ")
        if not s.startswith("fix: "):
            continue
        s = s[5:]
        p = next((p for r, p in MAP if re.search(r, s)), None)
        if p is None:
            sys.exit("no property for: " + s)
        out.append("fixed: property=%s %s %s" % (p, h, s))
    open(os.path.join(V, "known-findings.txt"), "w").write("\n".join(out) + "\n")


main()
