#!/usr/bin/env python3
"""Mutation analysis: how many small changes of the sources do the checks notice?

  mutate.py WORKER FILE[:N] ...   N random mutants of each file (all if no N)

Works on scratch copies in /tmp/mut/WORKER (of /repo's and /verif's commits) and
appends one line per mutant to /tmp/mut/results-WORKER.txt: killed by which
check, or SURVIVED, with the change. Survivors have to be looked at by hand:
many are equivalent or are no one's business (asserts, reserve() and the like).
"""
import os, random, re, shutil, subprocess, sys, time
KD = "C02 C04 C08 C36 C07 C09 C06 C29 C30 C28"
PROPS = {
    "KDEntryArray.h": KD, "BinaryKDTree.h": KD, "PackedKDTree.h": KD, "KDTree.h": KD,
    "DivList.h": "C01 C03 C36 C07 C09 C06 C29 C30 C28", "DivMask.h": "C05 C01 C02 C06 C29", "Comparer.h": "C01 C03",
    "DivFinder.h": "C01 C02",
    "Heap.h": "C10 C14 C15 C37 C29 C30 C28", "ComTree.h": "C33 C10 C11 C15 C37 C29 C30 C28", "TourTree.h": "C11 C15 C37 C29 C30 C28",
    "StlSet.h": "C13 C37 C30 C28", "Geobucket.h": "C12 C14 C15 C37 C29 C30 C28", "GeoFront.h": "C12 C14 C15 C29 C30 C28",
    "PairQueue.h": "C16 C17 C18 C19 C29 C30 C28", "HashTable.h": "C21 C29 C30 C28",
    "BitTriangle.h": "C20 C30", "BitTriangle.cpp": "C20 C30",
    "ColumnPrinter.cpp": "C22 C23", "ColumnPrinter.h": "C22 C23", "NameFactory.h": "C24 C25",
    "CliParser.cpp": "C25 C32", "IntegerParameter.cpp": "C25 C32", "BoolParameter.cpp": "C25 C32",
    "StringParameter.cpp": "C25 C32", "CliParameter.cpp": "C25 C32", "Action.cpp": "C25 C32",
    "CliParser.h": "C25 C24", "display.cpp": "C26", "display.h": "C26", "Timer.cpp": "C27", "HelpAction.cpp": "C32",
    "error.cpp": "C34 C25", "error.h": "C34 C25 C26",
}
SIM = "C31"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **k)

def mutants(text):
    """[(line number, new line, what)]"""
    out = []
    lines = text.split("\n")
    comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "template", "class", "struct", "typedef", "using", "namespace", "friend", "MATHIC_ASSERT", "MATHIC_SLOW", "static const", "public", "private")) or "ASSERT" in s:
            continue
        code, sep, rest = l.partition("//")
        def add(new, what):
            if new != code: out.append((n, new + sep + rest, what))
        def each(pat, rep):
            for m in re.finditer(pat, code):
                r = m.expand(rep)
                add(code[:m.start()] + r + code[m.end():], "%s -> %s" % (m.group(0).strip(), r.strip()))
        if '"' not in code:
            each(r"(?<=[\w\)\] ]) < (?=[\w\(\*&])", " <= ")
            each(r" <= ", " < ")
            each(r"(?<=[\w\)\]]) > (?=[\w\(\*&])", " >= ")
            each(r" >= ", " > ")
            each(r" == ", " != ")
            each(r" != ", " == ")
            each(r" && ", " || ")
            each(r" \|\| ", " && ")
            each(r" \+ 1\b", "")
            each(r" - 1\b", "")
            each(r"(?<=[\w\)]) \+ (?=\w)", " - ")
            each(r"(?<=[\w\)]) - (?=\w)", " + ")
            each(r" \* 2\b", "")
            each(r"\+\+(?=\w)", "")
            each(r"--(?=\w)", "")
            each(r" \+= ", " = ")
            each(r"\breturn true\b", "return false")
            each(r"\breturn false\b", "return true")
            each(r"\btrue\b(?!>)", "false") if "return" not in code and "template" not in code else None
            each(r"\bfalse\b(?!>)", "true") if "return" not in code and "template" not in code else None
            each(r"\bif \((?=!)!", "if (")
            each(r"(?<=[=(, ])0(?=[;,) ])", "1")
            each(r"(?<=[=(, ])1(?=[;,) ])", "2")
            for a, b in (("left", "right"), ("Left", "Right"), ("begin()", "end()"), ("front()", "back()"), ("first", "second"), ("row", "col"), ("a, b", "b, a")):
                for x, y in ((a, b), (b, a)):
                    if x in code and "(const" not in code: add(code.replace(x, y, 1), "%s -> %s" % (x, y))
            m = re.search(r"\bif \((.*)\)( \{|\{)?\s*(return|break|continue|\w.*;)?\s*$", code)
            if m and "else" not in code:
                add(code[:m.start(1)] + "true || (" + m.group(1) + ")" + code[m.end(1):], "if true")
                add(code[:m.start(1)] + "false && (" + m.group(1) + ")" + code[m.end(1):], "if false")
        if re.match(r"^\s*[\w:\[\]\(\)\.\->\*&\+]+( [\+\-\|&]?= .*|\(.*\)|\+\+|--)?;\s*$", code) and not re.match(r"^\s*(return|break|continue|goto|delete|typedef)?\s*;", code):
            if not re.match(r"^\s*return\b", code):
                add(re.match(r"^\s*", code).group(0) + ";", "deleted: " + s)
        if re.match(r"^\s*(break|continue);\s*$", code):
            add(re.match(r"^\s*", code).group(0) + ";", "deleted: " + s)
    return out

def main():
    worker, files = sys.argv[1], sys.argv[2:]
    base = "/tmp/mut/" + worker
    if not os.path.isdir(base + "/repo"):
        os.makedirs(base)
        sh("git clone -q /repo %s/repo && git clone -q /verif %s/verif" % (base, base))
    sh("git -C %s/repo pull -q; git -C %s/verif checkout -q -- .; git -C %s/verif pull -q" % (base, base, base))
    # hangs need not be confirmed at length here
    p = base + "/verif/run.py"
    t = open(p).read()
    open(p, "w").write(re.sub(r"STALL = \d+", "STALL = 15", re.sub(r"ALONE = \d+", "ALONE = 20", t)))
    rng = random.Random(int(os.environ.get("MUT_SEED", "1")))
    results = open("/tmp/mut/results-%s.txt" % worker, "a")
    for f in files:
        f, _, k = f.partition(":")
        path = base + "/repo/" + f
        text = open(path, newline="").read()
        ms = mutants(text)
        if k and int(k) < len(ms):
            ms = sorted(rng.sample(ms, int(k)))
        lines = text.split("\n")
        props = (PROPS[os.path.basename(f)] if "/mathic/" in f else SIM).split()
        for n, new, what in ms:
            l2 = list(lines)
            old = l2[n]
            l2[n] = new
            open(path, "w", newline="").write("\n".join(l2))
            start = time.time()
            verdict = "SURVIVED"
            for prop in props:
                env = dict(os.environ, MATHIC_REPO=base + "/repo", VERIF_SEED="1")
                p = subprocess.run(["python3", base + "/verif/run.py", prop], capture_output=True, text=True, errors="replace", env=env)
                if p.returncode == 1:
                    verdict = "killed " + prop
                    break
                if p.returncode == 2:
                    if "cannot build" in p.stderr:
                        verdict = "nobuild"
                        break
                    verdict = "noanswer " + prop
            results.write("%s\t%s:%d\t%s\t%s\t%d s\n" % (verdict, f, n + 1, what, old.strip()[:100], time.time() - start))
            results.flush()
            shutil.rmtree(base + "/verif/build", ignore_errors=True)
            shutil.rmtree(base + "/verif/replays", ignore_errors=True)
        open(path, "w", newline="").write(text)
    results.write("done %s\n" % " ".join(files))

main()
