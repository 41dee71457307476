"""Developer aid: which lines of quickly no quick check ever runs.

usage: tools/cov.py DIR PROP [--tier quick]     run a check, append the lines that run to DIR/PROP
       tools/cov.py --report DIR [PROP...]      print the lines that did not run
"""
import dis, glob, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QUICKLY_REPO", "/repo")
if sys.argv[1] == "--report":
    d = sys.argv[2]
    hit = {}
    for p in sys.argv[3:] or os.listdir(d):
        for line in open(os.path.join(d, p)):
            f, n = line.rstrip().rsplit(":", 1)
            hit.setdefault(f, set()).add(int(n))
    for fn in sorted(glob.glob(REPO + "/quickly/**/*.py", recursive=True)):
        rel = fn[len(REPO) + 1:]
        src = open(fn).read()
        lines = set()

        def walk(code):
            lines.update(l for _, _, l in code.co_lines() if l and l != code.co_firstlineno)
            for c in code.co_consts:
                if hasattr(c, "co_code"):
                    walk(c)
        top = compile(src, fn, "exec")
        for c in top.co_consts:
            if hasattr(c, "co_code"):
                walk(c)
        # class bodies run at import; count them as run
        miss = sorted(lines - hit.get(rel, set()))
        text = src.splitlines()
        miss = [m for m in miss if not text[m - 1].lstrip().startswith(('"""', "'''", 'r"""', "class ", "@", "def "))]
        print("==", rel, len(lines), "lines,", len(miss), "missed")
        for m in miss:
            print("%5d  %s" % (m, text[m - 1]))
else:
    d, prop = sys.argv[1:3]
    os.makedirs(d, exist_ok=True)
    fd = os.open(os.path.join(d, prop), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    mon = sys.monitoring
    mon.use_tool_id(1, "cov")
    pre = os.path.realpath(REPO) + "/quickly/"

    def line(code, n):
        if code.co_filename.startswith(pre):
            os.write(fd, "quickly/{}:{}\n".format(code.co_filename[len(pre):], n).encode())
        return mon.DISABLE
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    sys.argv = [ROOT + "/mc/main.py", *sys.argv[2:]]
    sys.path[0] = ROOT + "/mc"
    os.chdir(ROOT)
    import runpy
    runpy.run_path(sys.argv[0], run_name="__main__")
