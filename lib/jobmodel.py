"""The surroundings of a job: command queue, procedure and breakpoints as the most general environment; and the
reference state machine of a job."""
from client import *

CMD = NS + 'JobCommand::'
CMDS = ('kStart', 'kStep', 'kPause', 'kReset', 'kHalt', 'kTerminate')


def fl(st, k, d=None):
    v = st.store.get(('g', 'job.' + k))
    return d if v is None else v[1]


def put(st, k, v):
    st.store[('g', 'job.' + k)] = C(v)


def ecmd(I, c):
    return ('e', CMD + c, I.p.enumval[CMD + c][1])


def estat(I, s):
    return ('e', ST + s, I.p.enumval[ST + s][1])


def job_hook(commands, ticks, breaks=True, halts=True):
    """commands: how many commands arrive before terminate; ticks: after how many ticks the procedure finishes"""
    def halt_now(I, st):
        """the user may ask for a halt now: the command is then the next one"""
        if not halts or fl(st, 'pending', False) or fl(st, 'cmds', 0) > commands:
            return [st]
        out = []
        for v in (False, True):
            s = st.copy()
            I.ev(s, 'drv', 'HaltNow', (), C(v))
            if v:
                put(s, 'halted', True)
                put(s, 'pending', True)
            out.append(s)
        return out

    def deliver(I, st, blocking, loc=None):
        out = []
        left = commands - fl(st, 'cmds', 0)
        pend = fl(st, 'pending', False)
        if pend:
            opts = ['kHalt'] if left > 0 else []
            opts.append('kTerminate')
        elif left > 0:
            opts = list(CMDS)
        else:
            opts = ['kTerminate'] if blocking else []
        if not blocking:
            opts = [None] + opts
        for c in opts:
            s = st.copy() if len(opts) > 1 else st
            I.ev(s, 'drv', 'Command' if blocking else 'Poll', (), C(c))
            if c is not None:
                put(s, 'cmds', fl(s, 'cmds', 0) + 1)
                put(s, 'pending', False)
                if c in ('kHalt', 'kTerminate'):
                    put(s, 'halted', True)
                if loc is not None:
                    I.write(s, loc, ecmd(I, c))
            for s2 in halt_now(I, s) if c not in ('kTerminate', None) else [s]:
                out.append((s2, ecmd(I, c) if blocking else C(c is not None)))
        return out

    def extra(I, st, fr, node, name, recv, args):
        if args is None:
            return None
        last = name.split('::')[-1]
        if 'JobCommandQueue::' in name:
            if last == 'WaitForNextCommand':
                return deliver(I, st, True)
            if last == 'TryPop':
                return deliver(I, st, False, args[0][1])
            if last == 'Push':
                I.ev(st, 'drv', 'Push', (I.norm(st, I.val(st, args[0])),), C(None))
                return [(st, C(None))]
            if last == 'PriorityPush':
                I.ev(st, 'drv', 'Urgent', (I.norm(st, I.val(st, args[0])),), C(None))
                f = I.val(st, args[1])
                out = []
                s = st.copy()
                I.ev(s, 'drv', 'Refused', (), C(None))
                out.append((s, FALSE))
                if f == NULL:
                    return out + [(st, TRUE)]
                for s2, r in I.apply(st, f, [], fr, node):
                    out.append((s2, r if isinstance(r, Exc) else TRUE))
                return out
        if name.startswith(NS + 'Procedure::') and not name.endswith('Procedure::Procedure'):
            if last == 'ExecuteSingle':
                n = fl(st, 'ticks', 0) + 1
                put(st, 'ticks', n)
                if n > ticks + 3 and fl(st, 'status') in ('SUCCESS', 'FAILURE'):
                    return [(st, Exc(I.fresh('exc'), 'endless ticks of a finished procedure'))]
                out = []
                for v in TICK if n < ticks else ('SUCCESS', 'FAILURE'):
                    s = st.copy()
                    I.ev(s, 'drv', 'Tick', (), C(v))
                    put(s, 'status', v)
                    for s2 in halt_now(I, s):
                        out.append((s2, C(None)))
                return out
            if last == 'GetStatus':
                return [(st, estat(I, fl(st, 'status', 'NOT_STARTED')))]
            if last == 'Reset':
                I.ev(st, 'drv', 'ProcReset', (), C(None))
                put(st, 'status', 'NOT_STARTED')
                put(st, 'halted', False)
                return [(st, C(None))]
            if last == 'Halt':
                I.ev(st, 'drv', 'ProcHalt', (), C(None))
                put(st, 'halted', True)
                return [(st, C(None))]
            if last == 'Setup':
                I.ev(st, 'drv', 'ProcSetup', (), C(None))
                return [(st, C(None))]
            if last == 'RootInstruction':
                a = st.store.get(('g', 'job.root'))
                if a is None:
                    a = I.fresh('root', NS + 'Instruction')
                    st.facts[a] = ('out', frozenset([NULL]))
                    st.store[('g', 'job.root')] = a
                return [(st, a)]
            return I.opaque_call(node, st, fr, name, recv, args)
        if last == 'IsHaltRequested' and name.endswith('Instruction::IsHaltRequested'):
            if fl(st, 'halted', False):
                return [(st, TRUE)]
            return [(st, FALSE)]
        if last == 'GetNextInstructions' and len(args) == 1:
            out = []
            for v in (True, False):
                s = st.copy()
                a = I.fresh('next', NS + 'Instruction')
                s.facts[a] = ('out', frozenset([NULL]))
                put(s, 'next', v)
                I.ev(s, 'drv', 'Next', (), C(v))
                out.append((s, ('seq', (a,) if v else (), None, ())))
            return out if breaks else out[1:]
        if 'BreakpointManager::' in name:
            if last == 'HandleBreakpoints':
                if not fl(st, 'next', False):
                    return [(st, ('seq', (), None, ()))]
                out = []
                for v in (True, False):
                    s = st.copy()
                    I.ev(s, 'drv', 'Break', (), C(v))
                    a = I.fresh('bp', NS + 'Instruction')
                    out.append((s, ('seq', (a,) if v else (), None, ())))
                return out
            if last == 'ResetBreakpoints':
                I.ev(st, 'drv', 'Rearm', (), C(None))
                return [(st, C(None))]
            if last in ('SetBreakpoint', 'RemoveBreakpoint'):
                out = []
                for v in ('yes', 'no') + (('unknown',) if last[0] == 'S' else ()):
                    s = st.copy()
                    I.ev(s, 'drv', last, (I.norm(s, I.val(s, args[0])),), C(v))
                    out.append((s, Exc(I.fresh('exc'), NS + 'InvalidOperationException') if v == 'unknown' else C(v == 'yes')))
                return out
            if last == 'BreakpointManager':
                return None
        if last in ('TickTimeoutNs', 'GetCallbackGuard', 'RegisterGenericCallback', 'FlattenBFS', 'CreateFullInstructionTree'):
            return I.opaque_call(node, st, fr, name, recv, args)
        return None
    return extra


class JobM:
    """reference: what a job does with the commands that arrive"""

    def __init__(self, sim, commands, ticks, halts=True):
        self.sim, self.commands, self.max, self.halts = sim, commands, ticks, halts
        self.status, self.halted, self.pending, self.cmds, self.over = 'NOT_STARTED', False, False, 0, False
        self.goto('kInitial')

    def goto(self, s):
        self.state = s
        self.sim.emit('SeenState', s)

    def halt_now(self):
        if self.halts and not self.pending and self.cmds <= self.commands and self.sim.ask('HaltNow'):
            self.halted = self.pending = True

    def took(self, c):
        if c is None:
            return
        self.cmds += 1
        self.pending = False
        if c in ('kHalt', 'kTerminate'):
            self.halted = True
        if c != 'kTerminate':
            self.halt_now()

    def session(self):
        while not self.over:
            c = self.sim.ask('Command')
            self.took(c)
            self.command(c)

    def command(self, c):
        if c == 'kTerminate':
            self.over = True
        elif self.state in ('kInitial', 'kPaused'):
            if c == 'kStart':
                self.goto('kRunning')
                self.run()
            if c == 'kStep':
                self.goto('kStepping')
                self.tick()
                if not self.finish():
                    self.goto('kPaused')
            if c == 'kHalt':
                self.goto('kHalted')
        elif self.state == 'kRunning':
            if c in ('kStep', 'kPause'):
                self.goto('kPaused')
            if c == 'kHalt':
                self.goto('kHalted')
        elif c == 'kReset':
            self.sim.emit('ProcReset')
            self.status, self.halted = 'NOT_STARTED', False
            self.goto('kInitial')

    def tick(self):
        self.status = self.sim.ask('Tick')
        self.halt_now()

    def finish(self):
        if self.status in ('SUCCESS', 'FAILURE'):
            self.goto('kSucceeded' if self.status == 'SUCCESS' else 'kFailed')
            return True
        return False

    def run(self):
        while self.state == 'kRunning' and not self.halted and self.status not in ('SUCCESS', 'FAILURE'):
            if self.sim.ask('Next') and self.sim.ask('Break'):
                self.goto('kPaused')
                return
            self.tick()
            if not self.finish():
                c = self.sim.ask('Poll')
                self.took(c)
                if c is not None:
                    self.command(c)
                if self.over:
                    return


NONE = '-'


def job_trace(o, m):
    """observed events of a job; refused or absent values shown as '-'"""
    out = []
    for e in flat(o.log):
        if e[0] == 'drv':
            v = norm(o, e[3])
            out.append((e[1], tuple(sname(norm(o, x)) or (norm(o, x)[1] if norm(o, x)[0] == 'c' else '?') for x in e[2]), v))
    return out
