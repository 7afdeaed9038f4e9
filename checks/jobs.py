"""Jobs: the asynchronous runner, the runner and breakpoints under arbitrary commands."""
from client import *
from refmodel import Sim, Missing
from jobmodel import *
from checks import check
from checks.instr import text

MAIN = ('SeenState', 'Command', 'Poll', 'Tick', 'Break', 'ProcReset', 'HaltNow')
ENV = ('Command', 'Poll', 'Tick', 'Break', 'HaltNow', 'Next', 'Stop', 'SetBreakpoint', 'RemoveBreakpoint', 'Refused', 'Pick')


class JSim(Sim):
    """replays what the environment did; values may be None (no command)"""

    def __init__(self, trace):
        self.given, self.out, self.used = {}, [], {}
        for name, args, val in trace:
            if name in ENV:
                self.given.setdefault((name, args), []).append(val)

    def ask(self, name, *args):
        k = (name, args)
        i = self.used.get(k, 0)
        self.used[k] = i + 1
        vals = self.given.get(k, ())
        if i >= len(vals):
            self.out.append((name, args, 'missing'))
            raise Missing(name)
        self.out.append((name, args, vals[i]))
        return vals[i]


def jtrace(o):
    out = []
    for e in flat(o.log):
        if e[0] == 'drv':
            args = []
            for x in e[2]:
                x = norm(o, x)
                args.append(sname(x) or (x[1] if x[0] == 'c' else show(x)))
            v = norm(o, e[3])
            out.append((e[1], tuple(args), sname(v) or (v[1] if v[0] == 'c' else show(v))))
        elif e[0] == 'join':
            out.append(('Join' if len(e) == 2 else 'LateJoin', (), None))
    return out


def equals(script, names):
    def pred(o):
        if o.kind != 'ret':
            return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
        got = jtrace(o)
        sim = JSim(got)
        try:
            script(sim)
        except Missing:
            pass
        want = [e for e in sim.out if e[0] in names]
        have = [e for e in got if e[0] in names]
        for i in range(max(len(want), len(have))):
            a = want[i] if i < len(want) else None
            b = have[i] if i < len(have) else None
            if a != b:
                return 'expected %s, the code does %s (after %s)' % (text(a), text(b), '; '.join(text(x) for x in have[max(0, i - 5):i]) or 'start')
        return None
    return pred


def session(commands, ticks, halts):
    def script(sim):
        JobM(sim, commands, ticks, halts).session()
    return script


BIG = {'max_states': 400000, 'max_heads': 400000, 'max_steps': 1 << 40}


def sizes(ctx):
    return ((4, 1, False), (3, 2, False), (3, 1, True), (2, 3, True)) + (((4, 2, False), (3, 2, True), (2, 4, True)) if ctx.thorough else ())


def job(ctx, name, size, pred, rule):
    c, t, h = size
    return (rule, name, pred, dict(BIG, extra=job_hook(c, t, halts=h), max_time=700 if ctx.thorough else 200))


@check('C05', rule='client programs compared with a reference state machine', explain='A job from construction to destruction, with every sequence of commands arriving, every outcome of every tick, breakpoints hit anywhere and halts requested at any moment.')
def c05(ctx):
    ctx.parallel([job(ctx, 'JobRun', s, equals(session(*s), MAIN), 'state-machine') for s in sizes(ctx)])


def ticks_reported(o):
    """each tick is reported exactly once, with the procedure, before the next tick and before the job waits again"""
    if o.kind != 'ret':
        return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
    due = 0
    n = 0
    for e in jtrace(o):
        if e[0] == 'SeenTick':
            if not due:
                return 'a tick is reported that did not happen, or twice'
            if e[1] != (show(ARG('proc')),):
                return 'a tick is reported for %s, not for the procedure of the job' % e[1]
            due -= 1
        elif e[0] in ('Tick', 'Command'):
            if due:
                return 'tick %d is not reported before %s' % (n, 'the next tick' if e[0] == 'Tick' else 'the next command')
            if e[0] == 'Tick':
                due = 1
                n += 1
    return 'tick %d is never reported' % n if due else None


def rearmed(o):
    """breakpoints are armed again after a tick and only then"""
    if o.kind != 'ret':
        return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
    ticked = armed = False
    hit = False
    for e in jtrace(o):
        if e[0] == 'Break':
            if ticked and not armed:
                return 'after a tick, the breakpoints are checked without having been armed again'
            ticked = armed = False
            hit = e[2]
        elif e[0] == 'Tick':
            ticked = True
            hit = False
        elif e[0] == 'Rearm':
            if hit:
                return 'a breakpoint is armed again before the instruction it stopped at was ticked'
            armed = armed or ticked
    return 'breakpoints stay released after the last tick' if ticked and not armed else None


@check('C06', rule='typestate over every trace of a job', explain='The traces of every session with a job: ticks against reports of ticks.')
def c06(ctx):
    ctx.parallel([job(ctx, 'JobRun', s, ticks_reported, 'tick-reported') for s in sizes(ctx)] +
                 [job(ctx, 'RunnerRun', (0, 3, False), ticks_reported, 'tick-reported')])


def calls(o, last):
    """every request of the user becomes the command of that name; halt and destruction stop the procedure at once"""
    if o.kind != 'ret':
        return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
    want = {1: ('Push', 'kStart'), 2: ('Push', 'kStep'), 3: ('Push', 'kPause'), 4: ('Push', 'kReset'), 5: ('Urgent', 'kHalt'), 6: ('Urgent', 'kTerminate')}
    got, now, joined = {}, 0, None
    for e in jtrace(o):
        if e[0] == 'Mark':
            now = e[1][0]
        elif e[0] in ('Push', 'Urgent', 'Refused', 'ProcHalt'):
            got.setdefault(now, []).append(e)
        elif e[0] in ('Join', 'LateJoin') and joined is None:
            joined = (now, e[0], len(got.get(6, ())))
    for k, (how, what) in want.items():
        es = got.get(k, [])
        if not es or es[0][:2] != (how, (what,)) or sum(e[0] in ('Push', 'Urgent') for e in es) != 1:
            return 'request %d puts %s into the queue, expected %s %s' % (k, [text(e) for e in es], how, what)
        rest = [e[0] for e in es[1:]]
        if how == 'Push' and rest:
            return 'request %s has the effects %s' % (what, rest)
        if how == 'Urgent' and 'Refused' not in rest and 'ProcHalt' not in rest:
            return '%s is accepted without halting the procedure' % what
    for k in got:
        if k not in want:
            return 'commands without a request: %s' % [text(e) for e in got[k]]
    if joined is None or joined[0] != 6:
        return 'destruction does not wait for the thread of the job'
    if joined[1] == 'LateJoin' and not last:
        return 'destruction waits for the thread of the job only while its members are being destroyed'
    if joined[2] < 2:
        return 'destruction waits for the thread of the job before asking it to terminate'
    return None


def loop_future_last(ctx):
    fs = ctx.p.fields(NS + 'AsyncRunner')
    return bool(fs) and 'future' in fs[-1]['t']


@check('C07', rule='client program: requests and destruction', explain='Each request a user can make of a job, with the queue accepting or refusing it, and destruction.')
def c07(ctx):
    last = loop_future_last(ctx)

    ctx.parallel([('requests', 'JobCalls', lambda o: calls(o, last), dict(BIG, extra=job_hook(0, 1, halts=False)))])


def tree_hook(I, st, fr, node, name, recv, args):
    if args is None:
        return None
    last = name.split('::')[-1]
    if last == 'SeenTree':
        st.store[('g', 'tree')] = ('seq', (I.norm(st, I.val(st, args[0])), I.norm(st, I.val(st, args[1]))), None, ())
        return [(st, C(None))]
    if last == 'FlattenBFS':
        return [(st, st.store[('g', 'tree')])]
    if last == 'CreateFullInstructionTree':
        return I.opaque_call(node, st, fr, name, recv, args)
    if last == 'RootInstruction':
        a = I.fresh('root', NS + 'Instruction')
        st.facts[a] = ('out', frozenset([NULL]))
        return [(st, a)]
    if last == 'Pick':
        out = []
        for v in range(11):
            s = st.copy()
            I.ev(s, 'drv', 'Pick', (I.norm(s, I.val(s, args[0])),), C(v))
            out.append((s, C(v)))
        return out
    return None


def bp_script(n):
    def script(sim):
        bps = {}
        for i in range(n):
            op = sim.ask('Pick', i)
            if op < 3:
                if op == 2:
                    sim.emit('SeenBool', 1, True)
                else:
                    sim.emit('SeenBool', 0, op not in bps)
                    bps.setdefault(op, 'kSet')
            elif op < 6:
                sim.emit('SeenBool', 0, bps.pop(op - 3, None) is not None)
            elif op < 10:
                for w in {6: (0,), 7: (1,), 8: (0, 1), 9: (0, 2)}[op]:
                    if bps.get(w) == 'kSet':
                        bps[w] = 'kReleased'
                        sim.emit('SeenHit', w)
            else:
                bps = {k: 'kSet' for k in bps}
            sim.emit('Mark', i)
            for k in sorted(bps):
                sim.emit('SeenStatus', k, bps[k])
    return script


def as_sets(pred_names, script):
    """reports between two marks are compared as sets"""
    def split(tr):
        out, cur = [], []
        for e in tr:
            if e[0] in ('SeenHit', 'SeenStatus'):
                cur.append(e)
                continue
            out += sorted(cur)
            cur = []
            out.append(e)
        return out + sorted(cur)

    def pred(o):
        if o.kind != 'ret':
            return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
        got = jtrace(o)
        sim = JSim(got)
        try:
            script(sim)
        except Missing:
            pass
        want = split([e for e in sim.out if e[0] in pred_names])
        have = split([e for e in got if e[0] in pred_names])
        for i in range(max(len(want), len(have))):
            a = want[i] if i < len(want) else None
            b = have[i] if i < len(have) else None
            if a != b:
                return 'expected %s, the code does %s (after %s)' % (text(a), text(b), '; '.join(text(x) for x in have[max(0, i - 5):i]) or 'start')
        return None
    return pred


def set_remove(sim):
    sim.emit('SeenState', 'kInitial')
    sim.emit('Mark', 1)
    i = show(ARG('instr'))
    if sim.ask('SetBreakpoint', i) == 'yes':
        sim.emit('SeenBreakpoint', i, True)
    sim.emit('Mark', 2)
    if sim.ask('RemoveBreakpoint', i) == 'yes':
        sim.emit('SeenBreakpoint', i, False)
    sim.emit('Mark', 3)


def no_tree(sim):
    sim.emit('SeenBool', 1, True)
    sim.emit('SeenBool', 2, False)
    sim.emit('SeenBool', 3, True)


@check('C08', rule='client programs compared with a reference model', explain='Every sequence of operations on the breakpoints of a two-instruction procedure (setting, removing, stopping, re-arming, unknown instructions); breakpoints around ticks of a job; reports of changes.')
def c08(ctx):
    n = 5 if ctx.thorough else 4
    jobs = [('operations', 'BpOps%d' % n, as_sets(('Pick', 'SeenBool', 'SeenHit', 'SeenStatus', 'Mark'), bp_script(n)), dict(BIG, extra=tree_hook, max_time=600)),
            ('operations', 'BpNone', equals(no_tree, ('SeenBool',)), {'extra': tree_hook}),
            ('reports', 'JobBreakpoints', equals(set_remove, ('SeenState', 'Mark', 'SetBreakpoint', 'RemoveBreakpoint', 'SeenBreakpoint')), {'extra': job_hook(0, 1, halts=False)}),
            job(ctx, 'JobRun', (3, 2, False), rearmed, 're-armed'),
            job(ctx, 'RunnerRun', (0, 3, False), rearmed, 're-armed')]
    ctx.parallel(jobs)


class RunM:
    """reference: the synchronous runner"""

    def __init__(self, sim):
        self.sim, self.status, self.halted = sim, 'NOT_STARTED', False

    def finished(self):
        return self.status in ('SUCCESS', 'FAILURE') or self.halted

    def execute(self):
        """true when stopped by a breakpoint"""
        stop = False
        while not self.finished() and not stop:
            if self.sim.ask('Next') and self.sim.ask('Break'):
                return True
            self.status = self.sim.ask('Tick')
            self.sim.emit('SeenTick', show(ARG('proc')))
            if self.sim.ask('Stop', 0):
                stop = True
            elif self.sim.ask('Stop', 1):
                self.sim.emit('ProcHalt')
                stop = self.halted = True
        return False


def run_script(sim):
    m = RunM(sim)
    sim.emit('ProcSetup')
    sim.emit('Mark', 1)
    b = m.execute()
    sim.emit('Mark', 2)
    if m.finished():
        sim.emit('Mark', 3)
    if b:
        sim.emit('Mark', 4)
    b = m.execute()
    sim.emit('Mark', 5)
    if b:
        sim.emit('Mark', 4)


def step_script(sim):
    sim.emit('ProcSetup')
    sim.ask('Tick')
    sim.emit('SeenTick', show(ARG('proc')))
    sim.emit('Mark', 1)
    sim.ask('Tick')
    sim.emit('Mark', 2)


def empty_script(sim):
    sim.emit('Mark', 1)
    sim.emit('Mark', 2)


@check('C09', rule='client programs compared with a reference runner', explain='Running, pausing, halting, stepping and resuming a procedure with every outcome of every tick and breakpoints anywhere, and a runner without a procedure.')
def c09(ctx):
    names = ('Tick', 'Break', 'SeenTick', 'Stop', 'Mark', 'ProcHalt', 'ProcSetup')
    jobs = [job(ctx, 'RunnerRun', (0, t, False), equals(run_script, names), 'run') for t in ((1, 2, 3) if not ctx.thorough else (1, 2, 3, 4))]
    jobs += [job(ctx, 'RunnerStep', (0, 3, False), equals(step_script, names), 'step'),
             job(ctx, 'RunnerEmpty', (0, 1, False), equals(empty_script, names), 'empty')]
    ctx.parallel(jobs)
