#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py OUT.jsonl N SEED FILE...
Mutates single lines of the given library sources in scratch copies, builds the simulator against each mutant and runs a
reduced number of simulated runs of several properties; survivors hint at behaviour which no check looks at."""
import sys, os, re, random, subprocess, json, shutil, concurrent.futures, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
SCR = os.environ.get("MUT", "/tmp/mut")
RUNS = json.loads(os.environ.get("MUTRUNS", '[["P10",2500],["P11",800],["P01",1200],["P03",800],["P19",800],["P05",1200],["P13",500],["P12",400],["P06",400],["P14",600],["P16",300],["P18",300],["P10",4000,7]]'))
out, n, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
rng = random.Random(seed)
SKIP = re.compile(r'^\s*(//|\*|/\*|#|using |namespace|case |default:|return;|break;|\}|\{|$)|diag\.emplace_back|DiagLevel|argsToString|static const|const string context|CPP_UTILITIES|throw |catch|numberToString|context\)|^\s*"')

def mutants(f):
    lines = open(os.path.join(REPO, f)).read().split("\n")
    res = []
    for i, l in enumerate(lines):
        if SKIP.search(l): continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "~" * (len(m.group(0)) - 2) + '"', l)
        code = code.split("//")[0]
        def sub(pos, ln, new, op): res.append((f, i, l[:pos] + new + l[pos + ln:], op))
        if re.search(r'\b(if|while|for|return)\b|[-+]=|=', code) and "template" not in code and "<<" not in code and "include" not in code:
            for m in re.finditer(r' (<=|>=|<|>|==|!=|&&|\|\||\+|-|\+=|-=|%|/|\*|&|\|) ', code):
                o = m.group(1)
                new = {"<=": ["<"], ">=": [">"], "<": ["<="], ">": [">="], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "+=": ["-="], "-=": ["+="], "%": [], "/": ["*"], "*": ["/"], "&": ["|"], "|": ["&"]}[o]
                for x in new: sub(m.start(1), len(o), x, f"{o} -> {x}")
            for m in re.finditer(r'(?<![\w.\'x])(\d+)(u|ul|ull)?(?![\w.\'x])', code):
                if int(m.group(1)) < 1 << 20: sub(m.start(1), len(m.group(1)), str(int(m.group(1)) + 1), f"{m.group(1)} -> +1")
        m = re.match(r'^(\s*)(\}\s*else\s+)?if \((.*)\) \{$', code)
        if m and ";" not in code:
            s = m.start(3); e = m.end(3)
            res.append((f, i, l[:s] + "!(" + l[s:e] + ")" + l[e:], "negate"))
            res.append((f, i, l[:s] + "false && (" + l[s:e] + ")" + l[e:], "never"))
            res.append((f, i, l[:s] + "true || (" + l[s:e] + ")" + l[e:], "always"))
        if re.match(r'^\s+[\w.\->\[\]()*&:]+(\(.*\)|\s*[-+|&]?=\s.*|\+\+|--);$', code) and not re.match(r'^\s*(const|auto|std::|return|delete)\b', code) and code.count("(") == code.count(")"):
            res.append((f, i, re.match(r'^\s*', l).group(0) + ";", "delete"))
        elif re.match(r'^\s*(\+\+|--)[\w.\->\[\]]+;$', code):
            res.append((f, i, ";", "delete"))
        if re.match(r'^\s+(continue);$', code): res.append((f, i, ";", "delete"))
    # break; between cases
        if re.search(r'\b(true|false)\b', code) and "numeric" not in code and "static" not in code:
            m = re.search(r'\b(true|false)\b', code)
            sub(m.start(), len(m.group(0)), "false" if m.group(0) == "true" else "true", "bool")
    return res

allm = []
for f in files: allm += mutants(f)
rng.shuffle(allm)
allm = allm[:n]
print(len(allm), "mutants")
lock = threading.Lock()
slots = list(range(int(os.environ.get("MUTJ", "8"))))
env = dict(os.environ, B=f"{SCR}/base")
subprocess.check_call(["make", "-s", "-j8", "-C", V, "plain", f"REPO={REPO}", f"B={SCR}/base"], stdout=subprocess.DEVNULL)
objs = sorted(os.listdir(f"{SCR}/base/plain"))
objs = [o for o in objs if o.endswith(".o")]
for s in slots:
    d = f"{SCR}/w{s}/repo"
    shutil.rmtree(f"{SCR}/w{s}", ignore_errors=True)
    os.makedirs(f"{SCR}/w{s}/inc")
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "_build", "tests", "testfiles"))
    os.symlink(d, f"{SCR}/w{s}/inc/tagparser")

FLAGS = "-std=gnu++17 -O1 -g1 -w -fsanitize-coverage=trace-pc-guard -DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS -DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER -DTAG_PARSER_STATIC".split()

def work(m):
    f, i, new, op = m
    with lock: s = slots.pop()
    try:
        w = f"{SCR}/w{s}"
        src = f"{w}/repo/{f}"
        orig = open(f"{REPO}/{f}").read()
        lines = orig.split("\n")
        old = lines[i]
        lines[i] = new
        open(src, "w").write("\n".join(lines))
        r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "op": op}
        try:
            p = subprocess.run(["clang++"] + FLAGS + [f"-I{w}/inc", f"-I{w}/repo", f"-I{V}/sim", "-isystem", "/usr/include/martchus-c++utilities", "-c", src, "-o", f"{w}/m.o"], capture_output=True, text=True)
            if p.returncode:
                r["result"] = "nocompile"
                return r
            oname = f.replace("/", "__") + ".o"
            link = [f"{SCR}/base/plain/{o}" for o in objs if o != oname] + [f"{w}/m.o"] + [f"{SCR}/base/h/{h}" for h in os.listdir(f"{SCR}/base/h") if h.endswith(".o")]
            subprocess.run(["clang++", "-rdynamic"] + link + ["-o", f"{w}/sim", "-lmartchus-c++utilities", "-lz", "-lpthread", "-ldl"], check=True, capture_output=True)
            for rr in RUNS:
                prop, cnt = rr[0], rr[1]
                p = subprocess.run([f"{w}/sim", "--prop", prop, "--seed", str(rr[2] if len(rr) > 2 else 1), "--start", "0", "--stride", "1", "--count", str(cnt), "--tmax", "60000", "--all"], capture_output=True, text=True, errors="replace", timeout=200)
                v = [l for l in p.stdout.splitlines() if l.startswith("VIOL")]
                if v:
                    t = v[0].split("\t")
                    r["result"] = "killed"; r["by"] = prop; r["viol"] = t[3] + " " + t[4]; r["run"] = t[2]
                    return r
            r["result"] = "SURVIVED"
            return r
        except subprocess.TimeoutExpired:
            r["result"] = "timeout"
            return r
        finally:
            open(src, "w").write(orig)
    finally:
        with lock: slots.append(s)

with open(out, "a") as o, concurrent.futures.ThreadPoolExecutor(len(slots)) as ex:
    k = 0
    for r in ex.map(work, allm):
        o.write(json.dumps(r) + "\n"); o.flush()
