#!/usr/bin/env python3
"""Systematic small changes to /repo/src, to find what the checks miss.

mutants.py gen                 -> writes DIR/mutants.json (file, line, operator, new text)
mutants.py filter [n]          -> keeps those that compile and pass the unit tests in 4 configurations
mutants.py check [ids...]      -> runs the relevant quick checks on the survivors until one catches each
DIR is /tmp/mut. A development tool: no check uses it."""
import json, os, re, subprocess, sys, shutil, concurrent.futures, random

DIR = "/tmp/mut"; SRC = "/repo/src/mpack"
FILES = ["mpack-common.c", "mpack-expect.c", "mpack-node.c", "mpack-platform.c", "mpack-reader.c", "mpack-writer.c",
         "mpack-common.h", "mpack-expect.h", "mpack-node.h", "mpack-reader.h", "mpack-writer.h", "mpack-platform.h"]
REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" -= ", " += "),
       (" * ", " + "), (" & ", " | "), (" | ", " & "), (" << ", " >> "), ("true", "false"), ("false", "true")]

def strip(text):
    """blank comments and strings, keeping positions"""
    out = list(text); i = 0; n = len(text)
    while i < n:
        if text.startswith("/*", i):
            j = text.find("*/", i); j = n if j < 0 else j + 2
            for k in range(i, j):
                if out[k] != "\n": out[k] = " "
            i = j
        elif text.startswith("//", i):
            j = text.find("\n", i)
            for k in range(i, j): out[k] = " "
            i = j
        elif text[i] in "\"'":
            q = text[i]; j = i + 1
            while j < n and text[j] != q:
                j += 2 if text[j] == "\\" else 1
            for k in range(i + 1, min(j, n)): out[k] = " "
            i = j + 1
        else: i += 1
    return "".join(out)

def gen():
    ms = []
    for f in FILES:
        text = open(SRC + "/" + f).read(); lines = text.split("\n"); bare = strip(text).split("\n")
        depth = 0; cont = False
        for ln, (line, b) in enumerate(zip(lines, bare)):
            isfn = depth > 0
            pre = b.lstrip().startswith("#") or cont
            cont = b.rstrip().endswith("\\") and pre
            d0 = depth
            if not pre: depth += b.count("{") - b.count("}")
            if pre or d0 == 0: continue
            s = b.strip()
            if not s or s.startswith(("mpack_log", "mpack_assert", "mpack_break", "MPACK_UNUSED", "MPACK_STATIC_ASSERT", "case ", "default:", "typedef", "return mpack_error_to")) : 
                if not s.startswith("case "): continue
            if s.startswith(("extern", "struct", "enum", "union", "public:", "private:")): continue
            def add(op, new):
                if new != line: ms.append(dict(file=f, line=ln + 1, op=op, old=line, new=new))
            for a, r in REL:
                for m in re.finditer(re.escape(a), b):
                    if a in ("<=", ">=", "==", "!=") and b[m.start()-1:m.start()] in "<>=!": continue
                    if a in ("true", "false") and not re.match(r"\b%s\b" % a, b[m.start():]): continue
                    if a == " * " and re.search(r"(char|void|_t|struct \w+)$", b[:m.start()]): continue
                    add(a.strip() + "->" + r.strip(), line[:m.start()] + r + line[m.end():])
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?=[uUlL]*\b)(?![\w.])", b):
                t = m.group(1)
                try: v = int(t, 0)
                except ValueError: continue
                for dv in (1, -1):
                    if v + dv < 0: continue
                    nt = hex(v + dv) if t.startswith("0x") else str(v + dv)
                    add("const%+d" % dv, line[:m.start(1)] + nt + line[m.end(1):])
            if re.match(r"if \(.*\)( \{)?$", s) or re.match(r"\} else if \(.*\) \{$", s):
                i = line.index("if (") + 3; j = line.rindex(")")
                add("if-false", line[:i + 1] + "0 && (" + line[i + 1:j] + ")" + line[j:])
                add("if-true", line[:i + 1] + "1 || (" + line[i + 1:j] + ")" + line[j:])
            if s.endswith(";") and not s.startswith(("return", "break", "goto", "continue", "}")) and "(" in s and s.count("(") == s.count(")") and not re.match(r"^[\w\* ]+ \*?\w+ = ", s) and not re.match(r"(const |uint|int|size_t|char|bool|mpack_\w+_t\b)", s):
                add("delete", line[:len(line) - len(line.lstrip())] + ";")
            elif s.endswith(";") and re.match(r"^[\w\->\.\[\]]+ [\+\-\|]?= .*;$", s) or re.match(r"^(\+\+|--)[\w\->\.]+;$", s) or re.match(r"^[\w\->\.]+(\+\+|--);$", s):
                add("delete", line[:len(line) - len(line.lstrip())] + ";")
    for i, m in enumerate(ms): m["id"] = i
    os.makedirs(DIR, exist_ok=True)
    json.dump(ms, open(DIR + "/mutants.json", "w"))
    print(len(ms))
    import collections
    print(collections.Counter(m["file"] for m in ms))

TFLAGS = ["-w", "-Itest/unit/src", "-DMPACK_VARIANT_BUILDS=1", "-DMPACK_HAS_CONFIG=1"]
ALLF = ["-DMPACK_READER=1", "-DMPACK_WRITER=1", "-DMPACK_EXPECT=1", "-DMPACK_NODE=1", "-DMPACK_COMPATIBILITY=1", "-DMPACK_EXTENSIONS=1"]
ALLC = ["-DMPACK_STDLIB=1", "-DMPACK_MALLOC=test_malloc", "-DMPACK_FREE=test_free", "-DMPACK_STDIO=1"]
CONF = {
    "rel": ALLF + ALLC + ["-O1"],
    "dbg": ALLF + ALLC + ["-DMPACK_DEBUG=1", "-DDEBUG", "-O0", "-fsanitize=address"],
    "size": ALLF + ALLC + ["-DDEBUG", "-O0", "-DMPACK_OPTIMIZE_FOR_SIZE=1"],
    "embed": ALLF + ["-DDEBUG", "-O0"],
}
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, **kw)
def prep():
    os.makedirs(DIR + "/obj", exist_ok=True)
    ts = sorted(f for f in os.listdir("/repo/test/unit/src") if f.endswith(".c"))
    js = []
    for c, fl in CONF.items():
        for t in ts: js.append(["gcc"] + TFLAGS + fl + ["-Isrc", "-c", "test/unit/src/" + t, "-o", "%s/obj/%s-%s.o" % (DIR, c, t)])
        for f in FILES[:6]: js.append(["gcc"] + TFLAGS + fl + ["-Isrc", "-c", "src/mpack/" + f, "-o", "%s/obj/%s-%s.o" % (DIR, c, f)])
    with concurrent.futures.ThreadPoolExecutor(8) as p:
        for r in p.map(lambda j: sh(j, cwd="/repo"), js): assert r.returncode == 0
    return ts
def one(m, ts):
    d = "%s/w%d" % (DIR, m["id"]); os.makedirs(d)
    try:
        shutil.copytree("/repo/src", d + "/src"); os.symlink("/repo/test", d + "/test"); os.symlink("/repo/tools", d + "/tools")
        apply(m, d + "/src/mpack")
        for c, fl in CONF.items():
            objs = {x: "%s/obj/%s-%s.o" % (DIR, c, x) for x in ts + FILES[:6]}
            todo = ts + FILES[:6] if m["file"].endswith(".h") else [m["file"]]
            if m["file"].endswith(".h"):   # which objects include it matters little: rebuild all
                pass
            for x in todo:
                src = ("test/unit/src/" if x in ts else "src/mpack/") + x
                o = "%s/%s-%s.o" % (d, c, x)
                if sh(["gcc"] + TFLAGS + fl + ["-Isrc", "-c", src, "-o", o], cwd=d).returncode: return "compile"
                objs[x] = o
            exe = d + "/t-" + c
            if sh(["gcc"] + [f for f in fl if f.startswith("-fsan")] + list(objs.values()) + ["-o", exe, "-lm"], cwd=d).returncode: return "link"
            try:
                if sh([exe], cwd=d, timeout=200, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=1")).returncode: return "tests:" + c
            except subprocess.TimeoutExpired: return "tests:" + c
            os.remove(exe)
        return "SURVIVES"
    finally: shutil.rmtree(d, ignore_errors=True)
def apply(m, srcdir):
    p = srcdir + "/" + m["file"]; L = open(p).read().split("\n")
    assert L[m["line"] - 1] == m["old"], m
    L[m["line"] - 1] = m["new"]; open(p, "w").write("\n".join(L))
def filt(limit=None):
    ms = json.load(open(DIR + "/mutants.json")); ts = prep()
    base = one(dict(ms[0], old=ms[0]["old"], new=ms[0]["old"]), ts); print("baseline", base); assert base == "SURVIVES"
    done = {}
    if os.path.exists(DIR + "/filtered.json"): done = json.load(open(DIR + "/filtered.json"))
    todo = [m for m in ms if str(m["id"]) not in done]
    random.Random(1).shuffle(todo)
    if limit: todo = todo[:limit]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "8"))) as p:
        for k, (m, r) in enumerate(zip(todo, p.map(lambda m: one(m, ts), todo))):
            done[m["id"]] = r
            if k % 50 == 0:
                json.dump(done, open(DIR + "/filtered.json", "w")); print(k, sum(v == "SURVIVES" for v in done.values()), flush=True)
    json.dump(done, open(DIR + "/filtered.json", "w")); print("end", len(done), sum(v == "SURVIVES" for v in done.values()))

ORDER = {
    "mpack-writer": "C01 C30 C12 C03 C13 C08 C10 C09 C11 C20 C24 C25 C31".split(),
    "mpack-reader": "C02 C04 C23 C25 C14 C19 C30 C21 C08 C10 C09 C11 C22 C26 C24 C20 C07".split(),
    "mpack-expect": "C15 C18 C21 C19 C20 C29 C14 C08 C07 C09 C11 C24 C22 C04".split(),
    "mpack-node": "C05 C06 C07 C16 C17 C21 C19 C20 C29 C26 C08 C25 C10 C09 C11 C24 C22 C30".split(),
    "mpack-common": "C26 C27 C01 C02 C19 C20 C13 C14 C08 C15 C16 C24 C30 C22".split(),
    "mpack-platform": "C28 C29 C01 C02 C16 C15 C24 C13 C08".split(),
}
def check(ids):
    ms = {m["id"]: m for m in json.load(open(DIR + "/mutants.json"))}
    res = json.load(open(DIR + "/checked.json")) if os.path.exists(DIR + "/checked.json") else {}
    for i in ids:
        m = ms[int(i)]
        d = DIR + "/c"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copytree("/repo/src", d + "/src"); shutil.copytree("/repo/tools", d + "/tools")
        for f in ["LICENSE", "AUTHORS.md", "README.md", "CHANGELOG.md"]: shutil.copy("/repo/" + f, d)
        apply(m, d + "/src/mpack")
        r = "MISSED"
        for c in ORDER[m["file"][:-2]]:
            p = subprocess.run(["timeout", "300", "python3", "run.py", c], cwd=os.environ.get("VD", "/verif"), env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: r = "%s:%d%s" % (c, p.returncode, "" if "VIOLATION" in p.stdout else " NO VIOLATION LINE " + p.stdout[-300:]); break
        res[i] = r
        print(i, r, m["file"], m["line"], m["op"], "|", m["new"].strip(), flush=True)
        json.dump(res, open(DIR + "/checked.json", "w"))
def show(ids=None):
    ms = json.load(open(DIR + "/mutants.json")); done = json.load(open(DIR + "/filtered.json"))
    for m in ms:
        if done.get(str(m["id"])) == "SURVIVES": print(m["id"], m["file"], m["line"], m["op"], "|", m["old"].strip(), "=>", m["new"].strip())
if __name__ == "__main__":
    a = sys.argv[1]
    if a == "gen": gen()
    elif a == "filter": filt(int(sys.argv[2]) if len(sys.argv) > 2 else None)
    elif a == "check": check(sys.argv[2:])
    elif a == "show": show()
