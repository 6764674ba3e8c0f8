"""Survey of blind spots: small changes of one source file, each run against the checks of its module.

usage: mutate.py FILE(relative to the repository) CHECKS(comma separated) COUNT [SEED]
Works on a copy under /tmp/mut.<pid>, prints the changes no check noticed."""
import ast, os, random, shutil, subprocess, sys, tempfile, time

REPO = os.environ.get("MQ_BASE", "/repo")
rel, checks, count = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
src = open(os.path.join(REPO, rel), newline="").read()
lines = src.split("\n")
tree = ast.parse(src)
offs = [0]
for l in src.encode().split(b"\n"):
    offs.append(offs[-1] + len(l) + 1)
raw = src.encode()


def span(n):
    return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset


muts = []


def seg(n):
    a, b = span(n)
    return raw[a:b].decode()


skip_fn = ("__str__", "print_mrx", "generate_pdf")


class V(ast.NodeVisitor):
    def visit_FunctionDef(self, n):
        if n.name in skip_fn:
            return
        self.generic_visit(n)

    def visit_Call(self, n):
        f = seg(n.func)
        if f in ("print", "raise") or "Exception" in f or "set_description" in f or "format" in f or f == "np.array":
            return
        if f in ("min", "max"):
            a, b = span(n.func)
            muts.append((a, b, {"min": "max", "max": "min"}[f]))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        t = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}.get(type(n.op))
        if t:
            a, b = span(n)
            muts.append((a, b, "((%s) %s (%s))" % (seg(n.left), t, seg(n.right))))
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            t = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="]}.get(type(n.ops[0]), [])
            for x in t:
                a, b = span(n)
                muts.append((a, b, "(%s) %s (%s)" % (seg(n.left), x, seg(n.comparators[0]))))
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        a, b = span(n)
        j = " or " if isinstance(n.op, ast.And) else " and "
        muts.append((a, b, "(" + j.join("(%s)" % seg(x) for x in n.values) + ")"))
        self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = span(n)
        if isinstance(n.value, bool):
            muts.append((a, b, str(not n.value)))
        elif isinstance(n.value, int):
            muts.append((a, b, str(n.value + 1)))
            if n.value > 0:
                muts.append((a, b, str(n.value - 1)))
        elif isinstance(n.value, float) and n.value and abs(n.value) > 1e-3 and abs(n.value) < 1e3:
            muts.append((a, b, repr(n.value * 1.5)))

    def stmt(self, n):
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and not seg(n).startswith(("print", "super()")):
            a, b = span(n)
            muts.append((a, b, "pass"))
        self.generic_visit(n)
    visit_Assign = stmt
    visit_AugAssign = stmt

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call) and not seg(n).startswith("print"):
            self.stmt(n)

    def visit_If(self, n):
        a, b = span(n.test)
        if "verbose" not in seg(n.test):
            muts.append((a, b, "not (%s)" % seg(n.test)))
            self.generic_visit(n)


V().visit(tree)
random.Random(seed).shuffle(muts)
tmp = "/tmp/mut.%d" % os.getpid()
shutil.copytree(REPO, tmp, ignore=shutil.ignore_patterns(".git", "__pycache__"))
ver = tmp + ".v"
shutil.copytree("/verif", ver, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
os.makedirs(ver + "/evidence", exist_ok=True)
done = killed = 0
try:
    for a, b, new in muts:
        if done >= count:
            break
        out = raw[:a] + new.encode() + raw[b:]
        try:
            compile(out, rel, "exec")
        except SyntaxError:
            continue
        open(os.path.join(tmp, rel), "wb").write(out)
        done += 1
        t0 = time.time()
        who = None
        for c in checks:
            try:
                r = subprocess.run([sys.executable, "run_check.py", c], cwd=ver, env=dict(os.environ, MQ_REPO=tmp, VERIF_TIER="quick", VERIF_SEED="1"),
                                   capture_output=True, text=True, timeout=400)
                if r.returncode == 1:
                    who = c
                    break
                if r.returncode != 0:
                    who = c + "(harness error %d)" % r.returncode
                    print("HARNESS", c, raw[a:b].decode()[:80], "->", new[:80], r.stderr[-300:], flush=True)
                    break
            except subprocess.TimeoutExpired:
                who = c + "(timeout)"
                print("TIMEOUT", c, raw[a:b].decode()[:80], "->", new[:80], flush=True)
                break
        if who:
            killed += 1
        else:
            ln = src.encode()[:a].count(b"\n")
            print("SURVIVED %s:%d  %r -> %r   [%s]" % (rel, ln + 1, raw[a:b].decode()[:70], new[:80], lines[ln].strip()[:100]), flush=True)
finally:
    shutil.rmtree(tmp)
    shutil.rmtree(ver)
print("%s: %d changes, %d noticed (of %d possible)" % (rel, done, killed, len(muts)))
