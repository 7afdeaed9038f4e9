"""Reference semantics of the instruction tree, written from the documentation; run against the unknowns of a path."""


class Missing(Exception):
    pass


class Sim:
    def __init__(self, trace):
        self.given = {}
        for name, args, val in trace:
            if val is not None:
                self.given.setdefault((name, args), []).append(val)
        self.out = []
        self.used = {}

    def ask(self, name, *args):
        k = (name, args)
        i = self.used.get(k, 0)
        self.used[k] = i + 1
        vals = self.given.get(k, ())
        if i >= len(vals):
            self.out.append((name, args, None))
            raise Missing('%s%s expected but not called' % (name, args))
        self.out.append((name, args, vals[i]))
        return vals[i]

    def emit(self, name, *args):
        self.out.append((name, args, None))


NEEDS = ('NOT_STARTED', 'NOT_FINISHED', 'RUNNING')
READY = ('NOT_STARTED', 'NOT_FINISHED')


class Ins:
    """base class behaviour; leaf with unknown body"""

    def __init__(self, sim, id=None, children=()):
        self.sim, self.id, self.children = sim, id, list(children)
        self.status, self.halt = 'NOT_STARTED', False

    def notify(self):
        self.sim.emit('Notify', self.id, self.status)

    def execute(self):
        if self.status == 'NOT_STARTED':
            self.status = 'NOT_FINISHED' if self.init() else 'FAILURE'
            self.notify()
        before = self.status
        if self.status in NEEDS and not self.halt:
            self.status = self.tick()
        if self.status != before:
            self.notify()

    def do_halt(self):
        self.halt = True
        self.halt_impl()

    def reset(self):
        self.reset_hook()
        before, self.status = self.status, 'NOT_STARTED'
        if before != self.status:
            self.notify()
        self.halt = False

    def init(self):
        return self.sim.ask('Init', self.id)

    def tick(self):
        return self.sim.ask('Tick', self.id)

    def halt_impl(self):
        self.sim.emit('Halted', self.id)

    def reset_hook(self):
        self.sim.emit('ResetOf', self.id)

    def next(self):
        return []


class Comp(Ins):
    def init(self):
        return True

    def halt_impl(self):
        for c in self.children:
            c.do_halt()

    def reset_hook(self):
        for c in self.children:
            c.reset()


class Seq(Comp):
    skip, = ('SUCCESS',)
    reactive = False

    def valid(self):
        """statuses that a real run can produce (no child has already decided the result)"""
        st = [c.status for c in self.children]
        other = 'FAILURE' if self.skip == 'SUCCESS' else 'SUCCESS'
        if other in st or all(x == self.skip for x in st):
            return False
        if self.reactive:
            return True
        k = next(i for i, x in enumerate(st) if x != self.skip)
        return all(x == 'NOT_STARTED' for x in st[k + 1:])

    def tick(self):
        for c in self.children:
            if c.status == self.skip:
                continue
            c.execute()
            if self.reactive and c.status == 'RUNNING':
                for d in self.children:
                    if d is not c:
                        d.reset()
                return 'RUNNING'
            break
        for c in self.children:
            if c.status == self.skip:
                continue
            return 'NOT_FINISHED' if c.status in READY else c.status
        return self.skip

    def next(self):
        for c in self.children:
            if c.status == self.skip:
                continue
            return [c] if c.status in READY else []
        return []


class Fall(Seq):
    skip = 'FAILURE'


class RSeq(Seq):
    reactive = True


class RFall(Fall):
    reactive = True


class Deco(Comp):
    def valid(self):
        return True

    def child(self):
        return self.children[0]

    def next(self):
        return [self.child()]


class Inv(Deco):
    def valid(self):
        return self.child().status in NEEDS

    def tick(self):
        if self.child().status in NEEDS:
            self.child().execute()
        return {'SUCCESS': 'FAILURE', 'FAILURE': 'SUCCESS'}.get(self.child().status, self.child().status)


class Force(Deco):
    def valid(self):
        return self.child().status in NEEDS

    def tick(self):
        self.child().execute()
        return {'FAILURE': 'SUCCESS'}.get(self.child().status, self.child().status)


class Leaf(Ins):
    """leaf without a hook of its own"""

    def init(self):
        return True


class Wrapper:
    def __init__(self, sim, child):
        self.sim, self.child, self.status, self.launched, self.ready = sim, child, 'NOT_STARTED', False, True

    def tick(self):
        if self.launched and not self.ready:
            self.ready = self.sim.ask('Ready', self.child.id)
            if not self.ready:
                return
        old, self.status = self.status, self.child.status
        if self.status == old and self.status in NEEDS:
            self.launched, self.ready = True, False
            self.child.execute()
            self.status = 'RUNNING'


class AsyncDeco(Comp):
    wrapper = None

    def init(self):
        self.wrapper = Wrapper(self.sim, self.children[0])
        return True

    def tick(self):
        self.wrapper.tick()
        return self.wrapper.status

    def reset_hook(self):
        if self.status == 'RUNNING':
            self.do_halt()
        self.wrapper = None
        self.children[0].reset()

    def next(self):
        return self.children


class Par(Comp):
    attrs = {}
    wrappers = ()

    def init(self):
        n = len(self.children)
        s, f = self.attrs.get('successThreshold'), self.attrs.get('failureThreshold')
        if 'FAIL' in (s, f):
            self.wrappers = [Wrapper(self.sim, c) for c in self.children]
            return False
        self.s, self.f = min(n, n if s is None else s), min(n, 1 if f is None else f)
        if s is not None:
            self.f = min(self.f, n - self.s + 1)
        elif f is not None:
            self.s = n + 1 - self.f
        self.wrappers = [Wrapper(self.sim, c) for c in self.children]
        return True

    def tick(self):
        for w in self.wrappers:
            if w.status in NEEDS:
                w.tick()
        st = [w.status for w in self.wrappers]
        if st.count('SUCCESS') >= self.s:
            res = 'SUCCESS'
        elif st.count('FAILURE') >= self.f:
            res = 'FAILURE'
        else:
            return 'NOT_FINISHED' if 'NOT_FINISHED' in st else 'RUNNING'
        self.do_halt()
        return res

    def reset_hook(self):
        if self.status in ('RUNNING', 'NOT_FINISHED'):
            self.do_halt()
        self.wrappers = ()
        for c in self.children:
            c.reset()

    def next(self):
        return self.children if not self.wrappers else [w.child for w in self.wrappers if w.status in READY]


class Rep(Comp):
    attrs = {}

    def init(self):
        m = self.attrs.get('maxCount')
        self.count = 0
        if m == 'FAIL':
            return False
        self.max = 0 if m is None else max(m, -1)
        return True

    def tick(self):
        if self.max == 0:
            return 'SUCCESS'
        c = self.children[0]
        if c.status == 'SUCCESS':
            c.reset()
        c.execute()
        if c.status in ('SUCCESS', 'FAILURE'):
            self.count += 1
        if c.status == 'SUCCESS':
            return 'SUCCESS' if self.max > 0 and self.count == self.max else 'NOT_FINISHED'
        return c.status


class Inc(Deco):
    def valid(self):
        return True

    def tick(self):
        if self.child().status in NEEDS:
            self.child().execute()
        return self.child().status


class ForM(Comp):
    values = {}

    def init(self):
        self.count = 0
        return self.values.get('arrayVar') != 'FAIL'

    def next(self):
        return self.children

    def tick(self):
        arr = self.values['arrayVar']
        if not isinstance(arr, tuple):
            return 'FAILURE'
        if not arr:
            return 'SUCCESS'
        if self.values.get('elementVar') == 'FAIL':
            return 'FAILURE'
        if not self.sametype():
            return 'FAILURE'
        if not self.sim.ask('SetValue', 'elementVar', arr[self.count]):
            return 'FAILURE'
        c = self.children[0]
        if c.status == 'SUCCESS':
            c.reset()
        c.execute()
        if c.status in ('SUCCESS', 'FAILURE'):
            self.count += 1
        if c.status == 'SUCCESS':
            return 'SUCCESS' if self.count == len(arr) else 'NOT_FINISHED'
        return c.status

    _same = None

    def sametype(self):
        if self._same is None:
            self._same = self.sim.ask('SameType')
        return self._same


class ListenM(Comp):
    attrs, values = {}, {}

    def init(self):
        self.force = self.attrs.get('forceSuccess')
        return self.force != 'FAIL'

    def next(self):
        return self.children

    def tick(self):
        c = self.children[0]
        if c.status in ('NOT_FINISHED', 'RUNNING'):
            c.execute()
            return self.result()
        if c.status in ('SUCCESS', 'FAILURE'):
            c.reset()
        changed = False
        for n in self.values['varNames']:
            if self.sim.ask('Get', n) and not self.sim.ask('Same', n):
                changed = True
        if not changed:
            return 'RUNNING'
        c.execute()
        return self.result()

    def result(self):
        s = self.children[0].status
        if s == 'SUCCESS' or self.force and s == 'FAILURE':
            return 'NOT_FINISHED'
        return s


class ChoiceM(Comp):
    values = {}
    chosen, started = (), False

    def tick(self):
        if not self.chosen and not self.started:
            self.started = True
            v = self.values['varName']
            idx = v if isinstance(v, tuple) else (v,)
            if v == 'FAIL' or any(not isinstance(i, int) or i < 0 or i >= len(self.children) for i in idx):
                return 'FAILURE'
            self.chosen = [self.children[i] for i in idx]
            return 'NOT_FINISHED'
        for c in self.chosen:
            if c.status == 'SUCCESS':
                continue
            c.execute()
            break
        for c in self.chosen:
            if c.status == 'SUCCESS':
                continue
            return 'NOT_FINISHED' if c.status in READY else c.status
        return 'SUCCESS'

    def reset_hook(self):
        self.chosen, self.started = (), False
        Comp.reset_hook(self)

    def next(self):
        for c in self.chosen:
            if c.status == 'SUCCESS':
                continue
            return [c] if c.status in READY else []
        return []


class UserChoiceM(Comp):
    attrs = {}
    choice, future = -1, False

    def init(self):
        if self.attrs.get('description') == 'FAIL':
            return False
        self.future = self.sim.ask('Future')
        return self.future

    def tick(self):
        if self.halt or not self.future:
            return 'FAILURE'
        if self.choice < 0:
            if not self.sim.ask('Ready', 'future'):
                return 'RUNNING'
            ok, choice = self.sim.ask('Reply')
            if not ok or choice < 0 or choice >= len(self.children):
                return 'FAILURE'
            self.choice = choice
            return 'NOT_FINISHED'
        c = self.children[self.choice]
        c.execute()
        return c.status

    def halt_impl(self):
        self.future = False
        Comp.halt_impl(self)

    def reset_hook(self):
        self.choice = -1
        self.do_halt()
        for c in self.children:
            c.reset()

    def next(self):
        if 0 <= self.choice < len(self.children) and self.children[self.choice].status in READY:
            return [self.children[self.choice]]
        return []
