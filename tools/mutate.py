#!/usr/bin/env python3
"""Self-assessment of the checks: small mutants of the anchored code of a property, each run
against the quick check of that property.  Not part of any registered check.

mutate.py P07 [--n 25] [--seed 1] [--base /repo] [--par 4] [--jobs 2]
Prints the survivors (mutants the check did not notice) with file, line and change.
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'),
       ast.Eq: ('==', '!='), ast.NotEq: ('!=', '=='), ast.In: ('in', 'not in'), ast.NotIn: ('not in', 'in'),
       ast.Is: ('is', 'is not'), ast.IsNot: ('is not', 'is')}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'),
       ast.Pow: ('**', '*'), ast.Mod: ('%', '//'), ast.FloorDiv: ('//', '/')}
NAMES = {'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'any': 'all', 'all': 'any',
         'exp': 'expm1', 'zeros': 'ones', 'ones': 'zeros', 'sin': 'cos', 'cos': 'sin', 'floor': 'ceil', 'ceil': 'floor',
         'True': 'False', 'False': 'True', 'append': 'extend'}
SKIPFN = re.compile(r'^(__str__|__repr__|_?plot.*|.*[pP]rint.*|_?draw.*|show.*|main|_?draw|savePlot|.*listToString.*)$')
SKIPLINE = re.compile(r'print\(|logging|log\.|warn|verbos|__doc__|raise |assert |import ')


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split('\n')
        self.off = [0]
        b = 0
        for l in src.encode().split(b'\n'):
            b += len(l) + 1
            self.off.append(b)
        self.raw = src.encode()
        self.m = []

    def pos(self, n, end=False):
        return (self.off[n.end_lineno - 1] + n.end_col_offset) if end else (self.off[n.lineno - 1] + n.col_offset)

    def add(self, n, a, b, new, what):
        line = self.lines[n.lineno - 1]
        if SKIPLINE.search(line):
            return
        self.m.append((n.lineno, a, b, new.encode(), what, line.strip()))

    def seg(self, n):
        return self.raw[self.pos(n):self.pos(n, True)].decode()

    def visit_If(self, n):
        t = ast.unparse(n.test)
        if '__name__' in t or 'verbos' in t.lower() or 'debug' in t.lower():
            for x in n.orelse:
                self.visit(x)
            return
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if SKIPFN.match(n.name):
            return
        for d in n.args.defaults:
            self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            old, new = CMP[type(n.ops[0])]
            a, b = self.pos(n.left, True), self.pos(n.comparators[0])
            mid = self.raw[a:b].decode()
            if mid.count(old) == 1:
                self.add(n, a, b, mid.replace(old, new), '%s -> %s' % (old, new))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, (ast.Constant,)) or \
                type(n.op) in BIN and not isinstance(getattr(n.left, 'value', 0), str):
            old, new = BIN[type(n.op)]
            a, b = self.pos(n.left, True), self.pos(n.right)
            mid = self.raw[a:b].decode()
            if mid.count(old) == 1:
                self.add(n, a, b, mid.replace(old, new), '%s -> %s' % (old, new))
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        old, new = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
        if len(n.values) == 2:
            a, b = self.pos(n.values[0], True), self.pos(n.values[1])
            mid = self.raw[a:b].decode()
            if mid.count(old) == 1:
                self.add(n, a, b, mid.replace(old, new), '%s -> %s' % (old, new))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, self.pos(n), self.pos(n, True), '(' + self.seg(n.operand) + ')', 'drop unary')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, self.pos(n), self.pos(n, True), str(not v), '%s -> %s' % (v, not v))
        elif isinstance(v, int):
            new = random.choice([v + 1, v - 1]) if v > 1 else 1 - v if v in (0, 1) else v + 1
            self.add(n, self.pos(n), self.pos(n, True), str(new), '%s -> %s' % (v, new))
        elif isinstance(v, float):
            new = v * 1.5 if v else .1
            self.add(n, self.pos(n), self.pos(n, True), repr(new), '%s -> %s' % (v, new))

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'copy' and not n.args:
            self.add(n, self.pos(n), self.pos(n, True), self.seg(f.value), 'drop copy')
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        if name in ('array', 'deepcopy', 'copy', 'abs', 'list', 'sorted', 'reversed', 'sqrt', 'log') and len(n.args) == 1:
            self.add(n, self.pos(n), self.pos(n, True), '(' + self.seg(n.args[0]) + ')', 'drop ' + name)
        if name in NAMES:
            e = self.pos(f, True)
            self.add(n, e - len(name), e, NAMES[name], name + ' -> ' + NAMES[name])
        if name == 'range' and n.args:
            x = n.args[-1] if len(n.args) < 3 else n.args[1]
            self.add(n, self.pos(x), self.pos(x, True), '(' + self.seg(x) + ')-1', 'range-1')
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None and n.slice.step is None \
                and isinstance(n.ctx, ast.Load):
            self.add(n, self.pos(n), self.pos(n, True), self.seg(n.value), 'drop [:]')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, self.pos(n), self.pos(n, True), 'pass', 'delete statement')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, self.pos(n), self.pos(n, True), 'pass', 'delete statement')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, self.pos(n), self.pos(n, True), 'pass', 'delete statement')
        self.generic_visit(n)


def files_of(prop, base):
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        if d['id'] == prop:
            out = []
            for f in d['anchors']['files']:
                p = os.path.join(base, f)
                if os.path.isdir(p):
                    for r, _, fs in os.walk(p):
                        out += [os.path.join(r, x) for x in fs if x.endswith('.py') and x != '__init__.py']
                else:
                    out.append(p)
            return sorted(set(os.path.relpath(p, base) for p in out))
    raise SystemExit('no property ' + prop)


def also(prop, f, base):
    out = []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        if d['id'] != prop:
            n = [len(x) for x in d['anchors']['files'] if f == x or (x.endswith('/') and f.startswith(x))]
            if n:
                out.append((-max(n), d['id']))
    return [p for _, p in sorted(out)]


def mutants(prop, base, only=None):
    out = []
    for f in files_of(prop, base):
        if 'render' in f or 'plot' in f or (only and not re.search(only, f)):
            continue
        src = open(os.path.join(base, f), newline='').read()
        v = V(src)
        try:
            v.visit(ast.parse(src))
        except SyntaxError:
            continue
        out += [(f,) + m for m in v.m]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--n', type=int, default=25)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--base', default='/repo')
    ap.add_argument('--par', type=int, default=4)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--alone', action='store_true', help='do not try the checks of the other properties anchored in the file')
    ap.add_argument('--only', help='regular expression on file names')
    a = ap.parse_args()
    random.seed(a.seed)
    ms = mutants(a.prop, a.base, a.only)
    total = len(ms)
    # at most a few per line, spread over the files
    random.shuffle(ms)
    chosen, perline = [], {}
    for m in ms:
        k = (m[0], m[1])
        if perline.get(k, 0) < 1:
            perline[k] = 1
            chosen.append(m)
    chosen = chosen[:a.n]
    root = tempfile.mkdtemp(prefix='mut_')
    t0 = time.time()
    others = {}

    def run(i):
        f, line, s, e, new, what, text = chosen[i]
        d = os.path.join(root, 'm%d' % i)
        os.makedirs(d)
        shutil.copytree(os.path.join(a.base, 'pybrain'), os.path.join(d, 'pybrain'),
                        ignore=shutil.ignore_patterns('tests', '*.pyc', '__pycache__'))
        p = os.path.join(d, f)
        raw = open(p, 'rb').read()
        open(p, 'wb').write(raw[:s] + new + raw[e:])
        env = dict(os.environ, VP_REPO=d, VP_JOBS=str(a.jobs), VP_FAILFAST='1', VERIF_SEED='1')
        for prop in [a.prop] + ([] if a.alone else also(a.prop, f, a.base)):
            try:
                r = subprocess.run('ulimit -v 8000000; exec python3 %s/run.py --property %s --tier quick --no-evidence' % (HERE, prop),
                                   shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = 99, 'timeout'
            if rc == 1:
                if prop != a.prop:
                    others[i] = prop
                break
        shutil.rmtree(d, ignore_errors=True)
        return i, rc, o

    surv = []
    killed = err = 0
    with ThreadPoolExecutor(a.par) as ex:
        for i, rc, o in ex.map(run, range(len(chosen))):
            if rc == 1:
                killed += 1
            else:
                if rc != 0:
                    err += 1
                surv.append((i, rc, o))
    shutil.rmtree(root, ignore_errors=True)
    print('%s: %d of %d mutants run, %d killed (%d by another check: %s), %d survived (%d undecided) in %.0f s' % (
        a.prop, len(chosen), total, killed, len(others), ' '.join(sorted(set(others.values()))), len(surv), err, time.time() - t0))
    for i, rc, o in sorted(surv, key=lambda x: chosen[x[0]][:2]):
        f, line, s, e, new, what, text = chosen[i]
        print('  %s:%d  %s   | %s%s' % (f.replace('pybrain/', ''), line, what, text[:130], '' if rc == 0 else '  (rc %d %s)' % (rc, o[-150:].replace('\n', ' '))))
    sys.stdout.flush()


if __name__ == '__main__':
    main()
