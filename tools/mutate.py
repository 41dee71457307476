"""Developer aid: mutants of the code, and which checks notice them.

usage: tools/mutate.py list COVDIR OUT.json [PER_LINE]   make the mutants (one per line)
       tools/mutate.py run COVDIR MUTANTS.json RESULT.jsonl [SECONDS] [PROCS]
       tools/mutate.py one REPO PROPS SECONDS            (internal)

A shuffled part of the cases of every check that runs the mutated line, for a
limited time: a survivor is not necessarily missed by the full check.
"""
import ast, difflib, glob, hashlib, importlib, json, os, random, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/tmp/rq"
sys.dont_write_bytecode = True


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def out(n, new, what):
        s, e = span(n)
        return n.lineno, n.end_lineno, what, (b[:s] + new.encode() + b[e:]).decode()

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    FLIP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Mod: "+", ast.FloorDiv: "*"}
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef,)):
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                yield out(n, "{} {} {}".format(seg(n.left), FLIP[type(n.ops[0])], seg(n.comparators[0])), "compare")
            elif isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                yield out(n, "(" + op.join("(" + seg(v) + ")" for v in n.values) + ")", "boolop")
                yield out(n, "(" + seg(n.values[0]) + ")", "boolfirst")
                yield out(n, "(" + seg(n.values[-1]) + ")", "boollast")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                yield out(n, "(" + seg(n.operand) + ")", "not")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                yield out(n, "({} {} {})".format(seg(n.left), BIN[type(n.op)], seg(n.right)), "binop")
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                yield out(n, str(n.value + 1), "const+1")
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                yield out(n, str(not n.value), "bool")
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
                yield out(n, "pass", "delete")
            elif isinstance(n, (ast.Continue, ast.Break)):
                yield out(n, "pass", "delete")
            elif isinstance(n, ast.Return) and n.value is not None:
                yield out(n, "return None", "return None")
            elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                if not isinstance(n, ast.While):
                    yield out(n.test, "True", "if True")
                yield out(n.test, "False", "if False")


def load(cov):
    res = {}
    for p in sorted(os.listdir(cov)):
        for line in open(os.path.join(cov, p)):
            res.setdefault(line.strip(), set()).add(p)
    return res


def cmd_list(cov, outfn, per_line=1):
    hit = load(cov)
    rnd = random.Random(1)
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=SRC, capture_output=True, text=True).stdout.strip()
    res = []
    for fn in sorted(glob.glob(SRC + "/quickly/**/*.py", recursive=True)):
        rel = fn[len(SRC) + 1:]
        src = open(fn).read()
        orig = subprocess.run(["git", "show", base + ":" + rel], cwd=SRC, capture_output=True, text=True).stdout
        same = set()
        for blk in difflib.SequenceMatcher(None, orig.splitlines(), src.splitlines(), autojunk=False).get_matching_blocks():
            same.update(range(blk.b + 1, blk.b + blk.size + 1))
        per = {}
        for a, z, what, text in mutants(src):
            if a in same and text != src and "{}:{}".format(rel, a) in hit:
                try:
                    compile(text, fn, "exec")
                except SyntaxError:
                    continue
                per.setdefault(a, {})[text] = what
        for a, ms in sorted(per.items()):
            for text, what in rnd.sample(sorted(ms.items()), min(per_line, len(ms))):
                diff = "".join(difflib.unified_diff(src.splitlines(1), text.splitlines(1), rel, rel, n=0))
                res.append(dict(id="{}:{}:{}".format(rel[8:-3], a, what), file=rel, line=a, what=what, text=text, diff=diff, props=sorted(hit["{}:{}".format(rel, a)], key=lambda p: p)))
    rnd.shuffle(res)
    json.dump(res, open(outfn, "w"))
    print(len(res), "mutants")


def cmd_one(repo, props, seconds):
    sys.path[:0] = [repo, ROOT]
    import signal
    sys.stdout.flush()
    from mc import core
    signal.signal(signal.SIGALRM, core._alarm)
    real = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)

    def say(x):
        os.write(real, (x + "\n").encode())
    for p in props.split(","):
        try:
            m = importlib.import_module("mc.props." + p.lower())
            fams = m.families()
        except Exception as e:
            return say("KILLED {} import {}".format(p, e))
        rnd = random.Random(5)
        known = set()
        kf = ROOT + "/known_findings.json"
        for e in json.load(open(kf))["known"]:
            if e["property"] == p:
                known.add((e.get("family"), e.get("key")))
        for f in fams:
            t1 = time.time() + seconds / len(fams)
            try:
                cs = []
                for c in f.cases("quick"):
                    cs.append(c)
                    if time.time() > t1:
                        break
            except Exception as e:
                return say("KILLED {} {} cases: {}".format(p, f.name, e))
            t1 = time.time() + seconds / len(fams)
            rnd.shuffle(cs)
            rec = core.Recorder()
            f.case_seconds = 20
            for c in cs:
                core.run_case(f, c, rec)
                bad = [x for x in rec.fails if (x[0], x[2]) not in known]
                if bad:
                    return say("KILLED {} {} {} {}".format(p, f.name, json.dumps(bad[0][1], default=repr)[:200], bad[0][2][:200]))
                rec.fails.clear()
                rec.failed = 0
                if time.time() > t1:
                    break
    say("SURVIVED")


def cmd_run(cov, mutfn, resfn, seconds=10, procs=7):
    from concurrent.futures import ThreadPoolExecutor
    muts = json.load(open(mutfn))
    lines = {p: len(set(open(os.path.join(cov, p)))) for p in os.listdir(cov)}
    done = set()
    if os.path.exists(resfn):
        done = {json.loads(l)["id"] for l in open(resfn)}

    def work(m):
        if m["id"] in done:
            return
        w = "/tmp/mut/" + hashlib.md5(m["id"].encode()).hexdigest()[:10]
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(SRC, w, ignore=shutil.ignore_patterns(".git", "doc"))
        try:
            open(w + "/" + m["file"], "w").write(m["text"])
            env = dict(os.environ, QUICKLY_REPO=w, PYTHONPATH=w, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
            try:
                r = subprocess.run([sys.executable, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=w, env=env, capture_output=True, text=True, timeout=60)
                out = "TESTS" if r.returncode else ""
            except subprocess.TimeoutExpired:
                out = "TESTS timeout"
            if not out:
                props = sorted(m["props"], key=lambda p: lines[p])
                try:
                    r = subprocess.run([sys.executable, "-B", __file__, "one", w, ",".join(props), str(seconds)], cwd="/tmp", env=env, capture_output=True, text=True, timeout=2000)
                    out = r.stdout.strip() or "KILLED died {}".format(r.returncode)
                except subprocess.TimeoutExpired:
                    out = "KILLED timeout"
            with open(resfn, "a") as f:
                f.write(json.dumps(dict(id=m["id"], diff=m["diff"], result=out, props=m["props"])) + "\n")
        finally:
            shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(work, muts))


a = sys.argv[1:]
if a[0] == "list":
    cmd_list(a[1], a[2], *map(int, a[3:]))
elif a[0] == "one":
    cmd_one(a[1], a[2], float(a[3]))
elif a[0] == "run":
    cmd_run(a[1], a[2], a[3], *map(int, a[4:]))
