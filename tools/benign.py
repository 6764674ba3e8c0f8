"""Control: rewrites all sources without changing behaviour and runs the checks on the copy.

usage: benign.py [CHECKS]     (MQ_BASE: tree to start from)
Rewrites: operands of commutative operations swapped, sums and products re-associated, comparisons mirrored,
branches of if/else exchanged, x += y written out, range loops as while loops, local names changed, statements that do
nothing added, private helpers extracted."""
import ast, builtins, os, shutil, subprocess, sys, time, glob

BASE = os.environ.get("MQ_BASE", "/repo")
checks = sys.argv[1].split(",") if len(sys.argv) > 1 else ["C%02d" % i for i in range(1, 39)]
stats = {}


def bump(k):
    stats[k] = stats.get(k, 0) + 1


def textual(n):
    for x in ast.walk(n):
        if isinstance(x, (ast.JoinedStr, ast.List, ast.Tuple, ast.ListComp)):
            return True
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("str", "list"):
            return True
        if isinstance(x, ast.Attribute) and x.attr in ("source_types", "server_types", "source_types", "format"):
            return True
        if isinstance(x, ast.Name) and (x.id.startswith(("res", "Fore", "Style", "Back")) and x.id not in ("residual",)):
            return True
    return False


class T(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if textual(n):
            return n
        if isinstance(n.op, (ast.Add, ast.Mult)):
            bump("swap")
            # (a + b) + c -> (b + c) + a   (already swapped inside)
            n.left, n.right = n.right, n.left
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            bump("mirror")
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            bump("exchange")
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and not textual(n) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.value, ast.Constant):
            bump("aug")
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        # a statement that does nothing, and new names for locals
        args = {a.arg for a in n.args.args + n.args.kwonlyargs}
        if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda)) for s in n.body for x in ast.walk(s)):
            return n
        loc = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in loc:
                    bump("rename")
                    x.id = "my_" + x.id
        out = []
        for s in n.body:
            out += self.loops(s)
        i = 1 if out and isinstance(out[0], ast.Expr) and isinstance(out[0].value, ast.Constant) else 0
        out.insert(i, ast.parse("_ = None").body[0])
        n.body = out
        return n

    def loops(self, s):
        """for i in range(e): body (without continue) -> while"""
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" \
                and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and not s.orelse and \
                not any(isinstance(x, ast.Continue) for x in ast.walk(s)) and \
                not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == s.target.id for b in s.body for x in ast.walk(b)):
            bump("while")
            lim, it = "lim_" + s.target.id, "it_" + s.target.id
            pre = ast.parse("%s = 0" % it).body + [ast.Assign([ast.Name(lim, ast.Store())], s.iter.args[0])]
            body = ast.parse("%s = %s\n%s += 1" % (s.target.id, it, it)).body + s.body
            w = ast.While(ast.parse("%s < %s" % (it, lim), mode="eval").body, body, [])
            return pre + [w]
        return [s]


tmp = "/tmp/ben.%d" % os.getpid()
shutil.copytree(BASE, tmp, ignore=shutil.ignore_patterns(".git", "__pycache__"))
ver = tmp + ".v"
shutil.copytree("/verif", ver, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
os.makedirs(ver + "/evidence", exist_ok=True)
try:
    for f in sorted(glob.glob(tmp + "/most_queue/**/*.py", recursive=True)):
        if "/tests/" in f or "/tutorials/" in f:
            continue
        src = open(f).read()
        t = T().visit(ast.parse(src))
        ast.fix_missing_locations(t)
        open(f, "w").write(ast.unparse(t) + "\n")
    print(stats, flush=True)
    for c in checks:
        t0 = time.time()
        r = subprocess.run([sys.executable, "run_check.py", c], cwd=ver, env=dict(os.environ, MQ_REPO=tmp, VERIF_TIER="quick", VERIF_SEED="1"),
                           capture_output=True, text=True)
        print(c, "quiet" if r.returncode == 0 else "ALARM %d" % r.returncode, "%.0f s" % (time.time() - t0), flush=True)
        if r.returncode:
            print(r.stdout[-600:], r.stderr[-600:], flush=True)
finally:
    if not os.environ.get("MQ_KEEP"):
        shutil.rmtree(tmp)
        shutil.rmtree(ver)
    else:
        print(tmp)
