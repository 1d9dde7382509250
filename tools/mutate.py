"""python3 tools/mutate.py OUT.jsonl SEED COUNT FILE...: systematic mutants of peak against the checks that watch a file.
Not a registered check: it shows where the checks are blind. Survivors are then run against the tests."""
import ast, json, os, random, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
A = [('A01', 400), ('A02', 400), ('A04', 400), ('A05', 400), ('A03', 24)]
M = [('M01', 120), ('M03', 120), ('M07', 120), ('M04', 150), ('M05', 100), ('M02', 120), ('M06', 60)]
CHECKS = {
    'peak/assembler/assembler.py': A, 'peak/assembler/assembler_util.py': A, 'peak/assembler/assembled_adt.py': A, 'peak/assembler/assembler_abc.py': A, 'peak/assembler/utils.py': A + [('M10', 300)],
    'peak/assembler2/assembler.py': A, 'peak/assembler2/assembler_util.py': A, 'peak/assembler2/assembled_adt.py': A, 'peak/assembler2/assembler_abc.py': A,
    'peak/auto_assembler.py': [('L02', 600), ('L04', 16)], 'peak/bitfield.py': [('L01', 600)], 'peak/black_box.py': [('B01', 200), ('B02', 200)],
    'peak/family.py': [('F05', 200), ('F01', 40), ('F03', 150), ('F04', 150), ('F06', 100), ('F02', 16)], 'peak/features.py': [('F04', 300), ('F05', 200), ('F01', 40), ('F06', 100), ('B01', 100)],
    'peak/peak.py': [('F04', 300), ('F01', 30), ('F03', 200), ('F02', 16), ('B01', 100)], 'peak/float.py': [('L03', 400), ('B01', 200), ('B02', 200)], 'peak/ir.py': [('F06', 200)],
    'peak/register.py': [('F03', 300), ('F01', 40)], 'peak/memory.py': [('F03', 300)], 'peak/rtl_utils.py': [('L04', 24)],
    'peak/mapper/mapper.py': M, 'peak/mapper/utils.py': [('M10', 300), ('M08', 300)] + M, 'peak/mapper/index_var.py': [('M08', 300), ('M02', 100)], 'peak/mapper/formula_constructor.py': M,
    'peak/mapper/multi.py': [('M09', 200)],
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.LShift: '>>', ast.RShift: '<<', ast.Mult: '+', ast.BitAnd: '|', ast.BitOr: '&', ast.BitXor: '|', ast.FloorDiv: '*', ast.Mod: '*'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    res = []

    def rep(n, new, kind):
        a, b = span(n)
        res.append((n.lineno, kind, a, b, new))
    docs = {id(n.body[0]) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    ann = set()
    for n in ast.walk(tree):
        for t in [getattr(n, 'annotation', None), getattr(n, 'returns', None)]:
            if t is not None:
                ann |= {id(x) for x in ast.walk(t)}
        if isinstance(n, ast.Assert) and n.msg is not None:
            ann |= {id(x) for x in ast.walk(n.msg)}
        if isinstance(n, ast.Raise):
            ann |= {id(x) for x in ast.walk(n) if x is not n}
    for n in ast.walk(tree):
        if id(n) in ann:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, f'{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}', 'cmp')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join(text(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(text(v) for j, v in enumerate(n.values) if j != i) + ')', 'dropcond')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            rep(n, text(n.operand), 'not')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, f'({text(n.left)} {BIN[type(n.op)]} {text(n.right)})', 'bin')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value), 'const')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            rep(n, str(n.value + 1), 'const')
            rep(n, str(n.value - 1) if n.value else '2', 'const')
        elif isinstance(n, ast.Expr) and id(n) not in docs:
            rep(n, 'pass', 'del')
        elif isinstance(n, (ast.AugAssign, ast.Raise, ast.Continue, ast.Break)):
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            rep(n, 'pass', 'del')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, 'True', 'cond')
            rep(n.test, 'False', 'cond')
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f in ('sorted', 'reversed', 'set', 'abs', 'tuple') and n.args:
                rep(n, f'list({text(n.args[0])})', 'call')
            if f in ('max', 'min', 'all', 'any'):
                rep(n.func, {'max': 'min', 'min': 'max', 'all': 'any', 'any': 'all'}[f], 'call')
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                k = list(n.args)
                a0, a1 = span(k[0]), span(k[1])
                res.append((n.lineno, 'swap', a0[0], a1[1], text(k[1]) + ', ' + text(k[0])))
            for k in n.keywords:
                if k.arg and f not in ('dict',):
                    keep = [text(a) for a in n.args] + [text(x) for x in n.keywords if x is not k]
                    rep(n, f'{f}({", ".join(keep)})', 'kw')
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                rep(t, 'True', 'filter')
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            names = {a.arg for a in fn.args.args} | {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            names -= {'self', 'cls'}
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and id(x) not in ann:
                    toks = set(x.id.split('_'))
                    for y in sorted(names):
                        if y != x.id and (toks & set(y.split('_'))):
                            rep(x, y, 'name')
    return raw, sorted(set(res))


def main():
    out, seed, count, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:] or sorted(CHECKS)
    rng = random.Random(seed)
    pool = []
    for f in files:
        raw, ms = mutants(open('/repo/' + f).read())
        by = {}
        for x in ms:
            by.setdefault((x[0], x[1]), []).append(x)
        pool += [(f, rng.choice(v)) for k, v in sorted(by.items())]
    rng.shuffle(pool)
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['key'] for l in open(out)}
    print(len(pool), 'mutants in the pool')
    for f, (line, kind, a, b, new) in pool[:count]:
        key = f'{f}:{a}:{b}:{new}'
        if key in done:
            continue
        raw = open('/repo/' + f, 'rb').read()
        mut = raw[:a] + new.encode() + raw[b:]
        try:
            compile(mut, f, 'exec')
        except SyntaxError:
            continue
        d = f'/tmp/mut/{os.getpid()}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for s in ('peak', 'examples', 'tests'):
            shutil.copytree('/repo/' + s, f'{d}/{s}')
        open(f'{d}/{f}', 'wb').write(mut)
        env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=f'{d}:{ROOT}', OMP_NUM_THREADS='1',
                   PYTHONWARNINGS='ignore', VERIF_GRACE='0')
        t0 = time.time()
        killed = None
        r = subprocess.run([PY, '-W', 'ignore', '-c', 'import peak, peak.mapper, peak.float, peak.assembler2; assert peak.__file__.startswith("/tmp/mut")'], env=env, cwd='/tmp', capture_output=True)
        if r.returncode:
            killed = 'import'
        hist = []
        for c, n in CHECKS[f] if not killed else ():
            try:
                r = subprocess.run([PY, '-W', 'ignore', '-m', 'vlib.run', c, '-n', str(n), '--seed', str(seed)], env=env, cwd=ROOT, capture_output=True, text=True, timeout=400)
                hist.append((c, r.returncode))
                if r.returncode == 1 and 'VIOLATION' in r.stdout:
                    killed = c
                    break
            except subprocess.TimeoutExpired:
                hist.append((c, 'timeout'))
        tests = None
        shutil.rmtree(d, ignore_errors=True)
        ls = raw[:a].rfind(b'\n') + 1
        le = raw.find(b'\n', b)
        rec = dict(key=key, file=f, line=line, kind=kind, killed=killed, hist=hist, tests=tests, old=raw[ls:le].decode(), new=mut[ls:le + len(mut) - len(raw)].decode(), t=round(time.time() - t0, 1))
        with open(out, 'a') as h:
            h.write(json.dumps(rec) + '\n')
        if not killed:
            print('SURVIVED', json.dumps(rec), flush=True)


main()
