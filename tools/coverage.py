#!/usr/bin/env python3
"""Which executable lines of pybrain do the checks run?  coverage.py [PROPERTY ...]

Self-assessment: runs the quick tier of every property with line recording and lists, per file,
the functions no check entered and the lines of entered functions that were never executed.
"""
import ast, glob, json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')


def executable(path):
    tree = ast.parse(open(path, encoding='utf8').read())
    funcs = []

    def visit(node, prefix):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                body = ch.body
                if body and isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], "value", None), ast.Constant):
                    body = body[1:]
                lines = set()
                for st in body:
                    for n in ast.walk(st):
                        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Global)):
                            lines.add(n.lineno)
                funcs.append((prefix + ch.name, ch.lineno, lines))
                visit(ch, prefix + ch.name + '.')
            elif isinstance(ch, ast.ClassDef):
                visit(ch, prefix + ch.name + '.')
            else:
                visit(ch, prefix)
    visit(tree, '')
    return funcs


def main():
    props = sys.argv[1:] or sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(HERE, 'vp', 'p[0-9][0-9].py')))
    hit = {}
    with tempfile.TemporaryDirectory() as d:
        for p in props:
            env = dict(os.environ, VP_COVER=d, VP_REPO=REPO)
            r = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), '--property', p, '--no-evidence'],
                               env=env, capture_output=True, text=True)
            print(p, r.returncode, r.stdout.strip().splitlines()[-1:], file=sys.stderr, flush=True)
            for f in glob.glob(os.path.join(d, p + '.*.json')):
                for k, v in json.load(open(f)).items():
                    hit.setdefault(k, set()).update(v)
    tot = done = 0
    root = os.path.join(REPO, 'pybrain')
    for dp, dn, fn in sorted(os.walk(root)):
        dn[:] = sorted(x for x in dn if x != 'tests')
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            rel = os.path.relpath(os.path.join(dp, f), root)
            try:
                funcs = executable(os.path.join(dp, f))
            except SyntaxError:
                print(rel, 'does not parse')
                continue
            h = hit.get(rel, set())
            n = set().union(*[x[2] for x in funcs]) if funcs else set()
            if not n:
                continue
            tot += len(n)
            done += len(n & h)
            if n <= h:
                continue
            print('%s: %d of %d lines' % (rel, len(n & h), len(n)))
            for name, ln, lines in funcs:
                if not lines & h:
                    print('    never entered: %s (%d)' % (name, len(lines)))
                elif lines - h:
                    print('    %s: not executed %s' % (name, sorted(lines - h)))
    print('TOTAL %d of %d statement lines in functions' % (done, tot))


if __name__ == '__main__':
    main()
