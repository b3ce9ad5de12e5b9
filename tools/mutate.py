#!/usr/bin/env python3
"""Development aid (no check uses it): mechanical mutants of the C sources, each run through small slices of all the library drivers.
usage: mutate.py OUT.jsonl [--files a.c,b.c] [--sample N] [--seed S] [--frac F] [--jobs J] [--lines a-b]
Writes one JSON line per mutant: file, line, operator, old, new, killed-by (driver and key) or "survived"."""
import sys, os, re, json, random, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/bin"); sys.dont_write_bytecode = True
from stages import PROPS, FLAVOURS
REPO = os.environ.get("QPM_REPO", "/repo")
import argparse
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--files", default=""); ap.add_argument("--sample", type=int, default=0)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--frac", type=float, default=0.05); ap.add_argument("--jobs", type=int, default=7); ap.add_argument("--lines", default="")
ap.add_argument("--all", action="store_true", help="run every driver even after a kill"); ap.add_argument("--redo", default="", help="only the survivors of this file")
A = ap.parse_args()
W = tempfile.mkdtemp(prefix="qpm-mut-"); env = dict(os.environ)
from build import sanenv
env = sanenv(V); env["ASAN_OPTIONS"] += ":detect_leaks=1"
STAGES = []
for pid, p in PROPS.items():
    for st in p["stages"]:
        if st.get("python") or st.get("special") or st["driver"] == "c29h": continue
        if st["flavour"] in ("plain", "wrapmem", "wraptime", "asan", "msan"): STAGES.append((pid, st))
ORDER = ["c29", "c01", "c14", "c07", "c21", "c19", "c20"]
STAGES.sort(key=lambda t: (ORDER.index(t[1]["driver"]) if t[1]["driver"] in ORDER else 99, t[1]["flavour"] == "msan", t[0]))
seen = set(); S2 = []
for pid, st in STAGES:
    k = (st["driver"], st["flavour"], tuple(st.get("args", [])))
    if k not in seen: seen.add(k); S2.append((pid, st))
STAGES = S2
def cc(fl, src, o): 
    f = FLAVOURS[fl]; c = [f["cc"]] + f["cflags"] if src.endswith(".c") else [f["cxx"]] + f["cxxflags"]
    return subprocess.run(c + ["-I" + REPO + "/include", "-I" + V + "/harness", "-c", src, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
FL = sorted(set(st["flavour"] for _, st in STAGES))
jobs = []
for fl in FL:
    os.makedirs(W + "/" + fl)
    for s in glob.glob(REPO + "/src/*.c"): jobs.append((fl, s, "%s/%s/%s.o" % (W, fl, os.path.basename(s)[:-2])))
for d, fl in set((st["driver"], st["flavour"]) for _, st in STAGES): jobs.append((fl, V + "/harness/%s.cpp" % d, "%s/%s/drv_%s.o" % (W, fl, d)))
def one(j):
    r = cc(*j)
    if r.returncode: print(j, r.stdout[-500:]); os._exit(1)
with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
print("prepared", len(jobs), flush=True)
OPS = []
def op(name, rx, rep): OPS.append((name, re.compile(rx), rep))
op("lt-le", r"(?<![<\-=>])<(?![<=])", "<="); op("le-lt", r"<=", "<"); op("gt-ge", r"(?<![\->=])>(?![>=])", ">="); op("ge-gt", r">=", ">")
op("eq-ne", r"==", "!="); op("ne-eq", r"!=", "=="); op("and-or", r"&&", "||"); op("or-and", r"\|\|", "&&")
op("plus-minus", r"(?<=[\w\)\]]) ?\+ ?(?=[\w\(])", " - "); op("minus-plus", r"(?<=[\w\)\]]) ?- ?(?=[\w\(])", " + ")
op("mul-add", r"(?<=[\w\)\]]) ?\* ?(?=[\w\(])", " + "); op("div-mul", r"(?<=[\w\)\]]) ?/ ?(?=[\w\(])", " * ")
op("pluseq-minuseq", r"\+=", "-="); op("minuseq-pluseq", r"-=", "+="); op("pluseq-eq", r"\+=", "="); op("inc-none", r"(\w+)\+\+(?=\s*;)", r"\1"); op("postinc-dec", r"\+\+", "--")
op("zero-one", r"(?<![\w.])0(?![\w.])", "1"); op("one-zero", r"(?<![\w.])1(?![\w.])", "0"); op("one-two", r"(?<![\w.])1(?![\w.])", "2"); op("real-twice", r"(?<![\w.])(\d+\.\d+)(?![\w.])", r"(2*\1)")
op("neg", r"(?<=[=(,]) ?-(?=[\w(])", " "); op("not", r"!(?=[\w(])", ""); op("if-true", r"\bif ?\((.*)\)\s*$", r"if (1)"); op("if-false", r"\bif ?\((.*)\)\s*$", r"if (0)")
op("drop-stmt", r"^(\s*)([\w\->.\[\]\s]+ ?(?:=|\+=|-=|\*=|/=) ?.*;|\w+\(.*\);)\s*$", r"\1;"); op("break", r"\bbreak;", ";"); op("continue", r"\bcontinue;", ";"); op("else-none", r"\belse\s*$", "if (1)")
op("p-n", r"\b(\w+->)?p\b", lambda m: (m.group(1) or "") + "n"); op("m-n", r"\b(\w+->)?m\b", lambda m: (m.group(1) or "") + "n"); op("i-j", r"\[i\]", "[j]"); op("j-i", r"\[j\]", "[i]"); op("k-kk", r"\[k\]", "[0]")
op("max-min", r"\bMAX\b", "MIN"); op("min-max", r"\bMIN\b", "MAX"); op("sxz", r"->s\b", "->z"); op("zxs", r"->z\b", "->s"); op("xy", r"->x\b", "->y"); op("Gi", r"->G\b", "->A"); op("Ai", r"->A\b", "->P")
def mutants(f):
    src = open(f, newline="").read().split("\n"); out = []; com = False
    base = os.path.basename(f)
    for ln, l in enumerate(src):
        body = l.rstrip("\r"); strip = body.strip()
        if com:
            if "*/" in body: com = False
            continue
        if strip.startswith("/*") or (strip.startswith("*") and not strip.startswith("*("  ) and ";" not in strip):
            if "*/" not in body: com = True
            continue
        if not strip or strip.startswith("//") or strip.startswith("#") or "AMD_DEBUG" in strip or "ASSERT" in strip or "printf" in strip or "PRINTF" in strip: continue
        code = re.split(r"/\*|//", body)[0]
        for name, rx, rep in OPS:
            for m in rx.finditer(code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():] if isinstance(rep, str) else code[:m.start()] + rep(m) + code[m.end():]
                if new == code: continue
                tail = body[len(code):]
                out.append((f, ln, name, body, new + tail + ("\r" if l.endswith("\r") else "")))
    return out
files = [REPO + "/src/" + x for x in A.files.split(",")] if A.files else [f for f in sorted(glob.glob(REPO + "/src/*.c")) if os.path.basename(f) not in ("amd_dump.c", "amd_control.c", "amd_info.c")]
M = [m for f in files for m in mutants(f)]
if A.lines: a, b = map(int, A.lines.split("-")); M = [m for m in M if a <= m[1] + 1 <= b]
if A.redo:
    want = set((r["file"], r["line"], r["op"], r["new"]) for r in map(json.loads, open(A.redo)) if r["result"] == "survived")
    M = [m for m in M if (os.path.basename(m[0]), m[1] + 1, m[2], m[4].strip()) in want]
random.Random(A.seed).shuffle(M)
if A.sample: M = M[:A.sample]
print(len(M), "mutants", flush=True)
outf = open(A.out, "a"); ref = {}
def run(i):
    f, ln, name, old, new = M[i]; d = tempfile.mkdtemp(prefix="m%d-" % i, dir=W); base = os.path.basename(f)[:-2]; killed = []; status = "survived"
    try:
        src = open(f, newline="").read().split("\n"); src[ln] = new; p = d + "/" + base + ".c"; open(p, "w", newline="").write("\n".join(src))
        objs = {}
        for fl in FL:
            o = "%s/%s.%s.o" % (d, base, fl); r = cc(fl, p, o)
            if r.returncode: status = "nocompile"; return
            objs[fl] = o
            if fl == "plain":
                c = "%s/%s/%s.o" % (W, fl, base)
                if subprocess.run(["cmp", "-s", o, c]).returncode == 0: pass
                a = subprocess.run("objdump -d --no-show-raw-insn %s | tail -n +4 | md5sum; objdump -d --no-show-raw-insn %s | tail -n +4 | md5sum" % (o, c), shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
                rd = subprocess.run("objdump -s -j .rodata %s | tail -n +4 | md5sum; objdump -s -j .rodata %s | tail -n +4 | md5sum" % (o, c), shell=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split()
                if a[0] == a[2] and rd[0] == rd[2]: status = "same-code"; return
        for pid, st in STAGES:
            fl = st["flavour"]; exe = d + "/exe"
            os_ = [x for x in glob.glob("%s/%s/*.o" % (W, fl)) if os.path.basename(x) != base + ".o" and not os.path.basename(x).startswith("drv_")]
            r = subprocess.run([FLAVOURS[fl]["cxx"]] + FLAVOURS[fl]["cxxflags"] + [objs[fl], "%s/%s/drv_%s.o" % (W, fl, st["driver"])] + os_ + FLAVOURS[fl]["ldflags"] + ["-lm", "-lpthread", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: status = "nolink"; return
            n = max(40, int(st["quick"] * A.frac)) ; base_start = 0
            o = d + "/out"
            for x in (o,):
                if os.path.exists(x): os.unlink(x)
            try:
                r = subprocess.run([exe] + st.get("args", []) + ["--seed", "1", "--start", str(base_start), "--count", str(n), "--progress", d + "/prog", "--out", o, "--hashes", d + "/hash"], stdout=subprocess.DEVNULL, stderr=open(d + "/err", "w"), env=env, cwd=d, timeout=150, preexec_fn=(None if fl in ("asan", "msan") else lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (6 << 30, 6 << 30))))
                rc = r.returncode
            except subprocess.TimeoutExpired: rc = "hang"
            txt = open(o, errors="replace").read() if os.path.exists(o) else ""
            vs = [l.split("\t") for l in txt.splitlines() if l.startswith("V\t")]
            if vs or rc != 0:
                killed.append("%s/%s:%s" % (pid, fl, vs[0][2] if vs and len(vs[0]) > 2 else "rc=%s" % rc)); status = "killed"
                if not A.all: return
    finally:
        outf.write(json.dumps(dict(file=os.path.basename(f), line=ln + 1, op=name, old=old.strip(), new=new.strip(), result=status, by=killed)) + "\n"); outf.flush()
        shutil.rmtree(d, ignore_errors=True)
try:
    with ThreadPoolExecutor(A.jobs) as ex: list(ex.map(run, range(len(M))))
finally: shutil.rmtree(W, ignore_errors=True)
