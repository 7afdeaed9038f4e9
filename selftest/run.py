#!/usr/bin/env python3
"""Self test of the checks: applies source edits to a scratch copy of /repo and runs checks on it.
   run.py [-k substr] [-c Cxx]  ;  cases live in cases_*.py: CASES = [(name, 'bug'|'same', property, [(file, old, new)])]
   bug: the property's check must exit 1;  same: every check must exit 0 (no VIOLATION)."""
import glob, importlib.util, os, queue, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
sub = args[args.index('-k') + 1] if '-k' in args else ''
only = args[args.index('-c') + 1] if '-c' in args else None
kind = args[args.index('-t') + 1] if '-t' in args else None
cases = []
for f in sorted(glob.glob(V + '/selftest/cases_*.py')):
    sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    cases += m.CASES
WHERE = {}
for r, _, fs in os.walk('/repo/src'):
    for x in fs:
        WHERE.setdefault(x, os.path.relpath(os.path.join(r, x), '/repo'))


CORE = ['C01', 'C02', 'C03', 'C04', 'C25', 'C26', 'C30', 'C41', 'C42', 'C43']
NEAR = {f: CORE for f in ('job_command_queue.cpp', 'scope_guard.cpp', 'scope_guard.h', 'named_callback_manager.h', 'log_severity.cpp', 'job_states.cpp',
                          'execution_status.cpp', 'job_commands.h', 'procedure_preamble.cpp', 'exceptions.cpp', 'breakpoint.cpp')}

SLOTS = queue.Queue()
for _i in range(4):
    SLOTS.put(_i)


def run(case):
    name, k, prop, edits = case
    slot = SLOTS.get()
    w = '/tmp/selftest%d/w%d' % (os.getpid(), slot)
    os.makedirs(w, exist_ok=True)
    shutil.rmtree(w + '/src', ignore_errors=True)
    shutil.copytree('/repo/src', w + '/src')
    try:
        for f, o, n in edits:
            p = os.path.join(w, WHERE[f])
            s = open(p).read()
            if s.count(o) < 1:
                return name, 'EDIT-FAILS', '%s: %r' % (f, o[:60])
            open(p, 'w').write(s.replace(o, n))
        env = dict(os.environ, OAC_REPO=w, OAC_OUT=w + '/out')
        if k == 'bug' and not only:
            ids = [prop]
        else:
            ids = [only] if only else ['all'] if '-a' in args else NEAR.get(os.path.basename(edits[0][0]), [prop] if prop else ['all'])
        r = subprocess.run([sys.executable, V + '/check.py'] + ids, cwd=V, env=env, capture_output=True, text=True, timeout=1800)
        out = r.stdout + r.stderr
        und = out.count('UNDECIDED')
        want = 1 if k == 'bug' else 0
        ok = (r.returncode == want)
        det = [l for l in out.splitlines() if not l.startswith('KNOWN') and 'UNDECIDED' not in l and ' obligations, ' not in l]
        if und and not ok:
            det += [l for l in out.splitlines() if 'UNDECIDED' in l][:3]
        return name, ('ok' if ok else 'MISSED' if k == 'bug' else 'FALSE ALARM' if r.returncode == 1 else 'ERROR'), '%s %d und %s' % (
            prop, und, ' | '.join(x.strip()[:230] for x in (det[:4] if not ok else [])))
    finally:
        SLOTS.put(slot)


sel = [c for c in cases if sub in c[0] + ' ' + (c[2] or '') and (kind is None or c[1] == kind)]
n = {}
with ThreadPoolExecutor(4) as ex:
    for name, res, det in ex.map(run, sel):
        n[res] = n.get(res, 0) + 1
        if res != 'ok' or '-v' in args or not det.split()[1].startswith('0'):
            print('%-28s %-11s %s' % (name, res, det), flush=True)
print(n)
