"""Records which lines of pybrain the checks execute (tools/coverage.py; never used by a check)."""
import json, os, sys

HIT = {}        # code object -> set of lines
QUIET = {}      # code object -> calls since a new line was last seen
ROOT = None


def _global(frame, event, arg):
    co = frame.f_code
    if not co.co_filename.startswith(ROOT):
        return None
    if QUIET.get(co, 0) > 200:
        return None
    QUIET[co] = QUIET.get(co, 0) + 1
    lines = HIT.setdefault(co, set())
    lines.add(frame.f_lineno)

    def local(fr, ev, a):
        if ev == 'line' and fr.f_lineno not in lines:
            lines.add(fr.f_lineno)
            QUIET[co] = 0
        return local
    return local


def start(repo):
    global ROOT
    ROOT = os.path.join(repo, 'pybrain') + os.sep
    sys.settrace(_global)


def dump(path):
    sys.settrace(None)
    out = {}
    for co, lines in HIT.items():
        out.setdefault(co.co_filename[len(ROOT):], set()).update(lines)
    with open(path, 'w') as f:
        json.dump({k: sorted(v) for k, v in out.items()}, f)
