"""Properties anchored in the self-contained core: enumerations, command queue, callbacks, guards, exceptions."""
from chk import *
from checks import check

Q = NS + 'JobCommandQueue'


# ------------------------------------------------------------------------------------------- C03 / C04
def queue_setup(ctx):
    p = ctx.p
    ctx.require(Q in p.records, 'class JobCommandQueue not found')
    return the_field(ctx, Q, 'seq')


def cmd_rel(o, a, b):
    """possible orderings of two command values on this path"""
    r = o.I.possible_rels(o.st, a, b)
    return set(r)


def prio_rel(o, cmd, m):
    """what the path knows about cmd <= front(m): True/False/None, by asking the source's own operator"""
    fn = [f for f in o.I.p.fn('operator<=') if len(f['params']) == 2 and 'JobCommand' in f['params'][0]['t']]
    if not fn:
        return None
    st = o.st.copy()
    res = set()
    for x in o.I.run(fn[0], None, [cmd, T('elem', m, C(0))], st):
        if x.kind != 'ret':
            return None
        for s, b in o.I.decide(x.st, x.val):
            res.add(b)
    return res.pop() if len(res) == 1 else None


@check('C03', rule='inductive class specification', explain='Every public operation of the command queue analysed from an arbitrary queue content; result and final content compared with the FIFO/priority specification.')
def c03(ctx):
    q = queue_setup(ctx)
    p = ctx.p
    loc = ('fld', THIS(Q), q)
    M = T('fld', THIS(Q), q)

    def mid(o):
        return (('mid', M),) if is_empty(o, M) is not True else ()

    def noexc(o):
        if o.kind == 'ub':
            return 'undefined behaviour: %s' % show(o.val)
        if o.kind != 'ret':
            return 'ends with an exception'

    f = p.one('JobCommandQueue::Push')
    cmd = ARG(f['params'][0]['n'])

    def push(o):
        if noexc(o):
            return noexc(o)
        if content(o, loc) != mid(o) + (norm(o, cmd),):
            return 'queue content after Push is not the old content followed by the pushed command'
    ctx.judge(ctx.paths(f), 'push-appends', push)

    f = p.one('JobCommandQueue::PriorityPush')
    cmd, fun = [ARG(x['n']) for x in f['params'][:2]]

    def ppush(o):
        if o.kind == 'exc':
            # the action may throw: nothing may have been queued
            return None if content(o, loc) == mid(o) else 'the action threw but the command was queued'
        if noexc(o):
            return noexc(o)
        inv = events(o, 'invoke')
        e = is_empty(o, M)
        if o.val == TRUE:
            if content(o, loc) != (norm(o, cmd),) + mid(o):
                return 'accepted command is not at the front of the unchanged queue'
            if e is not True and prio_rel(o, cmd, M) is not False:
                return 'a command that is not strictly more urgent than the front was accepted'
            n = isnull(o, fun)
            mine = [x for x in inv if x[1] == fun]
            if len(mine) != (0 if n else 1) or len(inv) != len(mine):
                return 'the action of an accepted command ran %d times' % len(inv)
            if mine:
                idx = {id(x): i for i, x in enumerate(o.log)}
                ii = next(i for i, x in enumerate(o.log) if x[0] == 'invoke')
                ps = [i for i, x in enumerate(o.log) if x[0] == 'seq' and x[2] == loc]
                if not ps:
                    return None
                # visible = the mutex is released after the command is in the queue
                ul = [i for i, x in enumerate(o.log) if x[0] == 'unlock' and i > ps[0]]
                if ul and ii > ul[0]:
                    return 'the command becomes visible to the consumer before its action ran'
                if not held(o.log, ii):
                    return 'the action runs outside the critical section that makes the command visible'
        elif o.val == FALSE:
            if content(o, loc) != mid(o):
                return 'a refused command changes the queue'
            if inv:
                return 'the action of a refused command ran'
            if e is not False or prio_rel(o, cmd, M) is not True:
                return 'a command is refused although the queue is empty or the command is more urgent than the front'
        else:
            raise Undecided('result of PriorityPush not decided')
    ctx.judge(ctx.paths(f, ModCfg(throws=('invoke', 'function'))), 'priority-push', ppush)

    f = p.one('JobCommandQueue::TryPop')
    out = ('argloc', f['params'][0]['n'])

    def trypop(o):
        if noexc(o):
            return noexc(o)
        e = is_empty(o, M)
        if o.val == TRUE:
            if e is not False:
                return 'reports a command although the queue may be empty'
            if norm(o, o.I.read(o.st, out)) != norm(o, T('elem', M, C(0))):
                return 'the command handed out is not the front of the queue'
            if content(o, loc) != (('mid', T('tail', M)),) and content(o, loc) != ():
                return 'TryPop does not remove exactly the front'
            if content(o, loc) == () and is_empty(o, T('tail', M)) is not True:
                return 'TryPop does not remove exactly the front'
        elif o.val == FALSE:
            if e is not True:
                return 'reports no command although the queue may be non-empty'
            if content(o, loc) != mid(o):
                return 'a failing TryPop changes the queue'
            if o.I.read(o.st, out) != ARG(f['params'][0]['n']):
                return 'a failing TryPop overwrites the output command'
        else:
            raise Undecided('result of TryPop not decided')
    ctx.judge(ctx.paths(f), 'try-pop', trypop)

    f = p.one('JobCommandQueue::WaitForNextCommand')

    def waitnext(o):
        if noexc(o):
            return noexc(o)
        if is_empty(o, M) is not False:
            return shared(o, loc)
        if norm(o, o.val) != norm(o, T('elem', M, C(0))):
            return 'the command handed out is not the front of the queue'
        if content(o, loc) not in ((('mid', T('tail', M)),), ()):
            return 'does not remove exactly the front'

    def shared(o, loc):
        # the content was replaced by other threads while waiting
        c = content(o, loc)
        v = norm(o, o.val)
        if v[0] == 't' and v[1] == 'elem' and v[3] == C(0) and v[2][0] == 'a' and str(v[2][2]).startswith('shared:'):
            return None if c in ((('mid', T('tail', v[2])),), ()) else 'does not remove exactly the front'
        return 'the command handed out is not the front of the queue'
    ctx.judge(ctx.paths(f), 'wait-next', waitnext)

    f = p.one('JobCommandQueue::IsEmpty')

    def isempty(o):
        if noexc(o):
            return noexc(o)
        if content(o, loc) != mid(o):
            return 'IsEmpty changes the queue'
        e = is_empty(o, M)
        if e is None:
            return 'IsEmpty is not the emptiness of the queue'
        if o.val != C(e):
            return 'IsEmpty returns the wrong answer'
    ctx.judge(ctx.paths(f), 'is-empty', isempty)
    f = p.one('JobCommandQueue::GetSize')

    def getsize(o):
        if noexc(o):
            return noexc(o)
        if content(o, loc) != mid(o):
            return 'GetSize changes the queue'
        if o.val != T('len', M) and not (is_empty(o, M) is True and o.val == C(0)):
            return 'GetSize is not the number of queued commands'
    ctx.judge(ctx.paths(f), 'get-size', getsize)
    # a new queue is empty
    f = p.one('JobCommandQueue::JobCommandQueue')

    def fresh(o):
        if content(o, loc) != ():
            return 'a new queue is not empty'
    ctx.judge(ctx.paths(f), 'new-empty', fresh)


def held(log, i):
    n = 0
    for e in log[:i]:
        if e[0] == 'lock':
            n += 1
        elif e[0] == 'unlock':
            n -= 1
    return n > 0


def lockset(ctx, cls, fields, rule, methods=None, skip=()):
    """every access to the given fields by a method other than constructors/destructor holds one common mutex"""
    common = {}
    for c, fld, mode, locks, file, line, fn, isthis in ctx.accesses:
        if c != cls or fld not in fields or not isthis:
            continue
        base = fn.split('::')[-1]
        if base == cls.split('::')[-1] or base.startswith('~') or fn in skip:
            continue
        common.setdefault(fld, []).append((mode, frozenset(locks), file, line, fn))
    for fld in fields:
        acc = common.get(fld, [])
        if not acc:
            continue
        ms = frozenset.intersection(*[a[1] for a in acc])
        # report the accesses outside the lock that protects the majority
        cnt = {}
        for a in acc:
            for l in a[1]:
                cnt[l] = cnt.get(l, 0) + 1
        best = max(cnt, key=lambda k: cnt[k]) if cnt else None
        for a in sorted(acc, key=lambda a: (a[2], a[3], repr(a))):
            ok = bool(ms) or (best is not None and best in a[1])
            ctx.ob(rule, {'file': a[2], 'l': a[3], 'n': a[4]},
                   None if ok else '%s of the shared member %s without the mutex that protects it' % (a[0], fld))


@check('C04', rule='lock-set, wait-predicate and notify-after-publish analysis', explain='All accesses to the shared queue in every public operation, with the set of mutexes held on the path; every wait and every notification.')
def c04(ctx):
    q = queue_setup(ctx)
    p = ctx.p
    loc = ('fld', THIS(Q), q)
    M = T('fld', THIS(Q), q)
    names = ['Push', 'PriorityPush', 'TryPop', 'WaitForNextCommand', 'IsEmpty', 'GetSize']
    runs = {n: ctx.paths(p.one('JobCommandQueue::' + n)) for n in names}
    lockset(ctx, Q, [q], 'lock-held')
    for n in names:
        if runs[n] is None:
            continue
        for o in runs[n]:
            dl = events(o, 'deadlock')
            ctx.ob('no-self-deadlock', o.fn, 'the queue mutex is locked twice on one path' if dl else None, o.taint, describe(o) if dl else ())
            ctx.ob('released', o.fn, 'returns with the queue mutex held' if o.st.locks and o.kind != 'ub' else None, o.taint)
    # publish => notify
    for n in ('Push', 'PriorityPush'):
        for o in runs[n] or []:
            if o.kind != 'ret':
                continue
            pub = [i for i, e in enumerate(o.log) if e[0] == 'seq' and e[2] == loc and e[1] in ('push_back', 'push_front', 'insert')]
            if not pub:
                if content(o, loc) == ((('mid', M),) if is_empty(o, M) is not True else ()):
                    continue
                pub = [0]
            bad = None
            # a waiter re-checks under the mutex: the notification must not precede the critical section
            start = max([i for i, e in enumerate(o.log) if e[0] == 'lock' and i <= pub[0]] or [-1])
            if not any(e[0] == 'notify' and i > start for i, e in enumerate(o.log)):
                bad = 'a command is published without waking the waiting consumer'
            ctx.ob('notify-after-publish', o.fn, bad, o.taint, describe(o) if bad else ())
    # waits re-check the queue
    nw = 0
    for n in names:
        for o in runs[n] or []:
            if o.kind == 'ub':
                ctx.ob('no-empty-front', o.fn, 'front of a possibly empty queue: %s' % show(o.val), o.taint, describe(o))
    for o in runs['WaitForNextCommand'] or []:
        for e in flat(o.log):
            if e[0] in ('wait', 'wait-unlocked'):
                nw += 1
                bad = None
                if e[0] == 'wait-unlocked':
                    bad = 'waits without holding the mutex'
                elif e[3] != TRUE and e[4] != TRUE:
                    known = e[5] if len(e) > 5 else frozenset()
                    if not known:
                        bad = 'waits without first checking that the queue is empty (lost wake-up)'
                ctx.ob('wait-rechecks', o.fn, bad, o.taint, describe(o) if bad else ())
    blocking = any(e[0] == 'wait' for o in runs['WaitForNextCommand'] or [] for e in flat(o.log))
    w = p.one('JobCommandQueue::WaitForNextCommand')
    ctx.ob('blocking-wait', w, None if blocking or runs['WaitForNextCommand'] is None else 'WaitForNextCommand never waits on the condition variable',
           tuple(t for o in runs['WaitForNextCommand'] or [] for t in o.taint))


# ------------------------------------------------------------------------------------------- C01 / C02
ES = NS + 'ExecutionStatus'
JS = NS + 'JobState'
JC = NS + 'JobCommand'


def one_enum_fn(ctx, name, enum):
    c = [f for f in ctx.p.fn(name) if f['n'].count('::') == 2 and len(f['params']) >= 1 and strip_t(f['params'][0]['t']) == enum]
    ctx.require(len(c) >= 1, 'function %s(%s) not found' % (name, enum))
    return c[0]


@check('C01', rule='exhaustive enumeration tables by constant propagation', explain='Names and classifications of every execution status and job state, and of values outside the enumerations.')
def c01(ctx):
    st = {'NOT_STARTED': 'Not started', 'NOT_FINISHED': 'Not finished', 'RUNNING': 'Running', 'SUCCESS': 'Success', 'FAILURE': 'Failure'}
    table(ctx, 'status-name', one_enum_fn(ctx, 'StatusToString', ES), ES, st, 'Unknown status')

    def cls(name, yes, other=None):
        table(ctx, 'status-class', one_enum_fn(ctx, name, ES), ES, {k: k in yes for k in st}, other)
    cls('IsFinishedStatus', ('SUCCESS', 'FAILURE'), False)
    cls('NeedsExecute', ('NOT_STARTED', 'NOT_FINISHED', 'RUNNING'), True)
    cls('ReadyForExecute', ('NOT_STARTED', 'NOT_FINISHED'), False)
    cls('IsExecutingStatus', ('NOT_FINISHED', 'RUNNING'), False)
    js = {'kInitial': 'Initial', 'kPaused': 'Paused', 'kStepping': 'Stepping', 'kRunning': 'Running', 'kSucceeded': 'Success',
          'kFailed': 'Failure', 'kHalted': 'Halted'}
    table(ctx, 'job-state-name', one_enum_fn(ctx, 'ToString', JS), JS, js, 'Unknown JobState')
    table(ctx, 'job-state-class', one_enum_fn(ctx, 'IsFinishedJobState', JS), JS, {k: k in ('kSucceeded', 'kFailed', 'kHalted') for k in js}, False)


@check('C02', rule='complete comparison table by constant propagation', explain='All 36 ordered pairs of job commands.')
def c02(ctx):
    order = ['kStart', 'kStep', 'kPause', 'kReset', 'kHalt', 'kTerminate']
    es = {e[1].split('::')[-1]: e for e in enumerators(ctx, JC)}
    ctx.require(all(k in es for k in order), 'job commands %s not found' % [k for k in order if k not in es])
    fs = [f for f in ctx.p.fn('operator<=') if len(f['params']) == 2 and all(strip_t(x['t']) == JC for x in f['params'])]
    ctx.require(bool(fs), 'operator<= of JobCommand not found')
    f = fs[0]
    a, b = [x['n'] for x in f['params']]
    for i, x in enumerate(order):
        for j, y in enumerate(order):
            res, taint = results(ctx, f, {a: es[x], b: es[y]})
            if res is None:
                continue
            ctx.ob('command-order', f, None if res == {C(i <= j)} else '%s <= %s yields %s' % (x, y, show(frozenset(res))), taint)


# ------------------------------------------------------------------------------------------- C26
def drv(ctx, name, **kw):
    return ctx.paths(ctx.p.one('oacdrv::' + name), ModCfg(modular=False, sequential=True), **kw)


def inv_trace(o):
    return [e[1][2][4:] if e[1][0] == 'a' and e[1][1] == 0 else show(e[1]) for e in events(o, 'invoke')]


def guard_worlds(o, names):
    """every consistent assignment of none / not none to the callables on this path -> lists of the present ones"""
    for s, w in worlds(o, [(n, 'nn', (ARG(n),)) for n in names]):
        yield [n for n in names if w[n]]


@check('C26', rule='exactly-once analysis of client programs', explain='Client programs constructing, moving, assigning, swapping and destroying guards, analysed for every callable (including none).')
def c26(ctx):
    def order(name, seqs):
        def pred(o):
            if o.kind != 'ret':
                return 'ends with %s' % o.kind
            got = inv_trace(o)
            for alive in guard_worlds(o, sorted(set(seqs))):
                want = [x for x in seqs if x in alive]
                if [x for x in got if x != 'mark' or x in alive] != want and ('mark' in alive or 'mark' not in seqs):
                    return 'actions run in the order %s, expected %s' % (got, want)
        ctx.judge([o for o in drv(ctx, name) or [] if isnull(o, ARG('mark')) is not True], 'guard-once', pred)
    order('GuardPlain', ['f'])
    order('GuardDefault', [])
    order('GuardMoveCtor', ['f'])
    order('GuardMoveCtorMark', ['f', 'mark'])
    order('GuardMoveAssignEmpty', ['f'])
    order('GuardMoveAssignMark', ['g', 'mark', 'f'])
    order('GuardMoveFromEmpty', ['g', 'mark'])
    order('GuardSwap', ['f', 'mark', 'g'])

    def both(o):
        got = sorted(inv_trace(o))
        for alive in guard_worlds(o, ['f', 'g']):
            if got != sorted(alive):
                return 'actions run: %s, expected %s' % (got, sorted(alive))
    ctx.judge(drv(ctx, 'GuardMoveAssignBoth'), 'guard-once', both)

    def valid(name, want):
        def pred(o):
            for st, w in worlds(o, [('f', 'nn', (ARG('f'),))] if want == 'f' else []):
                if o.I.norm(st, o.val) != C(w['f'] if want == 'f' else want):
                    return 'IsValid is %s, expected %s' % (show(o.val), want)
        ctx.judge(drv(ctx, name), 'guard-valid', pred)
    valid('GuardValid', 'f')
    valid('GuardValidDefault', False)
    valid('GuardValidMovedFrom', False)
    valid('GuardValidMovedTo', 'f')
    valid('GuardValidAssignedFrom', False)
    valid('GuardValidAssignedTo', 'f')
    # a copy would run the action twice
    r = ctx.p.records.get(NS + 'ScopeGuard')
    ctx.require(r is not None, 'ScopeGuard not found')
    for k in ('copyctor', 'copyasg'):
        ok = r.get(k) in (2, 4)   # deleted or not declared
        ctx.ob('guard-not-copyable', {'n': NS + 'ScopeGuard'}, None if ok else 'ScopeGuard can be copied (%s), so its action can run twice' % k)


# ------------------------------------------------------------------------------------------- C41
EXC = ['RuntimeException', 'InvalidOperationException', 'ParseException', 'ProcedureSetupException', 'InstructionSetupException',
       'VariableSetupException']


@check('C41', rule='client programs + class hierarchy', explain='Message round trip and catchability of each exception type.')
def c41(ctx):
    p = ctx.p
    for a in EXC:
        ctx.require(NS + a in p.records, 'exception class %s not found' % a)
        bs = p.bases(NS + a, public=True)
        ctx.ob('std-exception', {'n': NS + a}, None if any(b == 'std::exception' for b in bs) else 'not publicly derived from std::exception')
        ctx.ob('library-exception', {'n': NS + a}, None if NS + 'MessageException' in bs else 'not publicly derived from the library exception base')
        for b in EXC:
            if a != b:
                ctx.ob('distinct', {'n': NS + a}, None if NS + b not in bs else 'is caught by handlers of %s' % b)
    for fname in ('What', 'WhatCopied'):
        fs = [f for f in p.byname.get('oacdrv::' + fname, []) if 'body' in f]
        ctx.require(len(fs) == 7, 'exception client programs not found')
        for f in fs:
            outs = ctx.paths(f, ModCfg(modular=False))

            def pred(o):
                if o.kind != 'ret':
                    return 'throws'
                v = norm(o, o.val)
                if v != ARG('m'):
                    return 'the text of the exception is %s, not the message it was created with' % show(v)
            ctx.judge(outs, 'message-preserved', pred, where=dict(f, n=f['n'] + str(f.get('targs', ''))))
    for f in [f for f in p.byname.get('oacdrv::Caught', []) if 'body' in f]:
        def pred(o):
            if norm(o, o.val) != C(1):
                return 'not caught as the common message exception'
        ctx.judge(ctx.paths(f, ModCfg(modular=False)), 'common-base', pred)


# ------------------------------------------------------------------------------------------- C42 / C43
@check('C42', rule='client programs', explain='Order and content of the preamble lists.')
def c42(ctx):
    ret = lambda want, msg: (lambda o: None if o.kind == 'ret' and norm(o, o.val) == want else msg + ': %s' % show(o.val))
    ctx.judge(drv(ctx, 'RegString'), 'registration-string', ret(ARG('s'), 'the registration text is not preserved'))
    ctx.judge(drv(ctx, 'RegMode'), 'registration-mode', ret(ARG('mode'), 'the registration mode is not preserved'))

    def paths(o):
        if o.kind != 'ret' or content(o, val=o.val) != (ARG('a'), ARG('b')):
            return 'plugin paths are %s' % show(o.val)
    ctx.judge(drv(ctx, 'PreamblePaths'), 'paths-in-order', paths)

    def types(o):
        if o.kind != 'ret':
            return 'throws'
        c = content(o, val=o.val)
        if len(c) != 2 or not all(alike(o, x, y) for x, y in zip(c, (ARG('i'), ARG('j')))):
            return 'type registrations are %s' % show(tuple(c))
    ctx.judge(drv(ctx, 'PreambleTypes'), 'types-in-order', types)
    # inductive: adding appends to an arbitrary list and leaves the other list alone
    P = NS + 'ProcedurePreamble'
    seqs = by_kind(ctx.p, P, 'seq')
    if len(seqs) == 2:
        for meth, key in (('AddTypeRegistration', 'TypeRegistrationInfo'), ('AddPluginPath', 'basic_string')):
            f = ctx.p.one('ProcedurePreamble::' + meth)

            def pred(o, key=key, f=f):
                if o.kind != 'ret':
                    return 'throws'
                for s in seqs:
                    m = T('fld', THIS(P), s)
                    c = content(o, ('fld', THIS(P), s))
                    base = (('mid', m),) if is_empty(o, m) is not True else ()
                    a = ARG(f['params'][0]['n'])
                    if key in ctx.p.field(P, s)['t']:
                        if len(c) != len(base) + 1 or c[:len(base)] != base or not alike(o, c[-1], a):
                            return '%s does not append its argument' % meth
                    elif c != base:
                        return '%s changes the other list' % meth
            ctx.judge(ctx.paths(f, ModCfg(modular=False)), 'append-inductive', pred)


@check('C43', rule='client programs', explain='Breakpoint object: initial status, status updates, identity of the instruction.')
def c43(ctx):
    ret = lambda want, msg: (lambda o: None if o.kind == 'ret' and norm(o, o.val) == want else msg + ': %s' % show(o.val))
    es = {e[1].split('::')[-1]: e for e in enumerators(ctx, NS + 'Breakpoint::Status')}
    ctx.judge(drv(ctx, 'BpInstruction'), 'bp-instruction', ret(ARG('i'), 'does not refer to its instruction'))
    ctx.judge(drv(ctx, 'BpInstructionAfterSet'), 'bp-instruction', ret(ARG('i'), 'a status change loses the instruction'))
    ctx.judge(drv(ctx, 'BpInitial'), 'bp-armed', ret(es['kSet'], 'a new breakpoint is not armed'))
    for k, e in es.items():
        f = ctx.p.one('oacdrv::BpAfterSet')
        ctx.judge(ctx.paths(f, ModCfg(modular=False), override={'s': e}), 'bp-status', ret(e, 'status %s is not stored' % k))
    f = ctx.p.one('oacdrv::BpAfterThree')
    for r in es.values():
        for s in es.values():
            for t in es.values():
                ctx.judge(ctx.paths(f, ModCfg(modular=False), override={'r': r, 's': s, 't': t}), 'bp-status',
                          ret(t, 'after statuses %s, %s the status %s is not stored' % (show(r), show(s), show(t))))


# ------------------------------------------------------------------------------------------- C30
@check('C30', rule='exhaustive tables by constant propagation', explain='All severities both ways, and unknown inputs.')
def c30(ctx):
    names = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG', 'TRACE']
    enum = NS + 'log::Severity'
    es = sorted(enumerators(ctx, enum), key=lambda e: e[2])
    vals = [e[2] for e in es]
    last = [e for e in es if e[1].endswith('NUMBER_OF_LOG_LEVELS')]
    ctx.require(len(last) == 1, 'NUMBER_OF_LOG_LEVELS not found')
    ctx.ob('severity-scale', {'n': enum}, None if vals == list(range(10)) and last[0][2] == 9 else 'severities are not numbered 0..9 in order')
    order = ['EMERG', 'ALERT', 'CRIT', 'ERR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG', 'TRACE']
    for i, k in enumerate(order):
        e = [x for x in es if x[1].endswith('SUP_SEQ_LOG_' + k)]
        ctx.ob('severity-scale', {'n': enum}, None if e and e[0][2] == i else 'severity %s has the wrong rank' % k)
    f = ctx.p.one('log::SeverityString')
    pn = f['params'][0]['n']
    for i, n in enumerate(names):
        res, taint = results(ctx, f, {pn: C(i)})
        if res is not None:
            ctx.ob('severity-name', f, None if res == {C(n)} else 'severity %d is named %s, expected %s' % (i, show(frozenset(res)), n), taint)

    def prep(I, st, this):
        st.facts[ARG(pn)] = ('out', frozenset([C(i) for i in range(9)] + [e for e in es[:9]]))
    for v in (-1, 9, 10, 1000):
        res, taint = results(ctx, f, {pn: C(v)})
        if res is not None:
            ctx.ob('severity-name', f, None if res == {C('UNKNOWN')} else 'out-of-range severity %d yields %s' % (v, show(frozenset(res))), taint)
    outs = ctx.paths(f)
    for o in outs or []:
        k = norm(o, ARG(pn))
        if k[0] in 'ce':
            i = k[-1]
            want = C(names[i]) if 0 <= i < 9 else C('UNKNOWN')
            ctx.ob('severity-name', f, None if o.kind == 'ret' and norm(o, o.val) == want else 'severity %s yields %s' % (i, show(o.val) if o.val else o.kind), o.taint)
        elif o.kind != 'ret':
            ctx.ob('severity-name', f, 'an unknown severity ends with %s' % o.kind, o.taint, describe(o))
    g = ctx.p.one('log::GetSeverityFromString')
    gn = g['params'][0]['n']
    for i, n in enumerate(names):
        res, taint = results(ctx, g, {gn: C(n)})
        if res is not None:
            ctx.ob('severity-parse', g, None if len(res) == 1 and list(res)[0][-1] == i else '%s is parsed as %s' % (n, show(frozenset(res))), taint)
    for n in ('', 'UNKNOWN', 'emergency', 'ERR', 'INFORMATION', ' INFO', 'DEBUGX', 'TRAC'):
        res, taint = results(ctx, g, {gn: C(n)})
        if res is not None:
            ctx.ob('severity-parse', g, None if len(res) == 1 and list(res)[0][-1] == 9 else 'the unknown name %r is parsed as %s' % (n, show(frozenset(res))), taint)
    for o in ctx.paths(g) or []:
        k = norm(o, ARG(gn))
        if k[0] != 'c':
            v = norm(o, o.val) if o.kind == 'ret' else None
            f9 = o.st.facts.get(ARG(gn))
            if f9 and f9[0] == 'out' and set(C(n) for n in names) <= set(f9[1]):
                ctx.ob('severity-parse', g, None if v is not None and v[-1] == 9 else 'an unknown name is parsed as %s' % show(v), o.taint)


# ------------------------------------------------------------------------------------------- C25
def eqsplit(o, st, a, b):
    return list(o.I.decide_eq(st, a, b))


def nonnull_split(o, st, a):
    return [(s, not b) for s, b in o.I.decide_eq(st, a, NULL)]


def worlds(o, qs):
    """split the path over the given questions (name, kind, args) -> [(state, answers)]"""
    ws = [(o.st.copy(), {})]
    for name, kind, args in qs:
        nxt = []
        for s, a in ws:
            for s2, b in (eqsplit(o, s, *args) if kind == 'eq' else nonnull_split(o, s, *args)):
                d = dict(a)
                d[name] = b
                nxt.append((s2, d))
        ws = nxt
    return ws


def invoked(o):
    return [(e[1], e[2]) for e in events(o, 'invoke')]


def has_star(o):
    return any(e[0] == 'star' for e in o.log)


@check('C25', rule='client programs + lock-set analysis', explain='Client programs with arbitrary names, listeners and callables (including none) registering, executing, unregistering and guarding; lock-set over every access to the registration lists in every instantiation.')
def c25(ctx):
    A = ARG

    def prog(name, qs, expect, rule, ordered=True):
        def pred(o):
            if o.kind != 'ret':
                return 'ends with %s' % o.kind
            if has_star(o):
                raise Undecided('loop over a list of unknown length')
            for s, w in worlds(o, qs):
                want = expect(w)
                got = [(f, tuple(o.I.norm(s, x) for x in a)) for f, a in invoked(o)]
                want = [(f, tuple(o.I.norm(s, x) for x in a)) for f, a in want]
                if (got != want) if ordered else sorted(got, key=repr) != sorted(want, key=repr):
                    return 'when %s the callbacks run are %s, expected %s' % (w, [show(x) for x in got], [show(x) for x in want])
        ctx.judge(drv(ctx, name), rule, pred)
    nn = lambda n: (n, 'nn', (A(n),))
    eq = lambda x, y: (x + '==' + y, 'eq', (A(x), A(y)))
    prog('NcmExecute', [nn('c1'), nn('c2'), eq('n1', 'q'), eq('n2', 'q')],
         lambda w: [(A('c%d' % i), (A('v'),)) for i in (1, 2) if w['c%d' % i] and w['n%d==q' % i]], 'execute-matching')
    prog('NcmExecuteTwice', [nn('c1'), eq('n1', 'q')],
         lambda w: [(A('c1'), (A(x),)) for x in 'vw' if w['c1'] and w['n1==q']], 'execute-every-time')
    prog('NcmGeneric', [nn('g1'), nn('g2')],
         lambda w: [(A(g), (A('q'), A('v'))) for g in ('g1', 'g2') if w[g]], 'execute-generic')
    prog('NcmMixed', [nn('c1'), nn('g1'), eq('n1', 'q')],
         lambda w: ([(A('g1'), (A('q'), A('v')))] if w['g1'] else []) + ([(A('c1'), (A('v'),))] if w['c1'] and w['n1==q'] else []),
         'execute-mixed', ordered=False)
    prog('NcmNoArgs', [nn('c1'), eq('n1', 'q')], lambda w: [(A('c1'), ())] if w['c1'] and w['n1==q'] else [], 'execute-matching')
    prog('NcmUnregister', [nn('c1'), nn('c2'), nn('c3'), eq('l1', 'u'), eq('l2', 'u'), eq('l3', 'u')],
         lambda w: [(A('c%d' % i), (A('v'),)) for i in (1, 2, 3) if w['c%d' % i] and not w['l%d==u' % i]], 'unregister-exactly')
    prog('NcmUnregisterGeneric', [nn('g1'), nn('g2'), nn('c1'), eq('l1', 'u'), eq('l2', 'u'), eq('l3', 'u')],
         lambda w: [(A('g%d' % i), (A('q'), A('v'))) for i in (1, 2) if w['g%d' % i] and not w['l%d==u' % i]] +
         ([(A('c1'), (A('v'),))] if w['c1'] and not w['l3==u'] else []), 'unregister-exactly', ordered=False)

    def guard(w):
        gone = lambda l: w['u'] and w[l + '==u']
        out = []
        for i, x in enumerate('vw'):
            if w['g1'] and not (i and gone('l2')):
                out.append((A('g1'), (A('q'), A(x))))
            if w['c1'] and not (i and gone('l1')):
                out.append((A('c1'), (A(x),)))
        return out
    prog('NcmGuard', [nn('c1'), nn('g1'), nn('u'), eq('l1', 'u'), eq('l2', 'u')], guard, 'guard-unregisters', ordered=False)

    def res(name, qs, expect, rule):
        def pred(o):
            if o.kind != 'ret':
                return 'ends with %s' % o.kind
            for s, w in worlds(o, qs):
                if o.I.norm(s, o.val) != C(expect(w)):
                    return 'when %s the result is %s' % (w, show(o.val))
        ctx.judge(drv(ctx, name), rule, pred)
    res('NcmRegister', [nn('c1')], lambda w: w['c1'], 'register-result')
    res('NcmRegisterGeneric', [nn('g1')], lambda w: w['g1'], 'register-result')
    res('NcmUnregisterResult', [nn('g1'), nn('c1'), eq('l1', 'u'), eq('l2', 'u')],
        lambda w: (w['g1'] and w['l1==u']) or (w['c1'] and w['l2==u']), 'unregister-result')
    res('NcmUnregisterTwice', [], lambda w: False, 'unregister-result')
    # concurrency: every access to the lists, in every instantiation, under the manager's mutex, and callbacks
    # run inside it (so that none runs after its listener was removed)
    insts = sorted(c for c in ctx.p.records if c.startswith(NS + 'NamedCallbackManager<'))
    ctx.require(insts, 'no instantiation of the callback manager found')
    for cls in insts:
        for f in [f for n, fs in ctx.p.byname.items() if n.startswith(NS + 'NamedCallbackManager::') for f in fs
                  if f.get('cls') == cls and 'body' in f and not f.get('implicit')]:
            outs = ctx.paths(f)
            for o in outs or []:
                dl = events(o, 'deadlock')
                ctx.ob('no-self-deadlock', f, 'locks its mutex twice on one path' if dl else None, o.taint, describe(o) if dl else ())
                if f['n'].endswith('ExecuteCallbacks'):
                    for e in events(o, 'invoke'):
                        if e[1][0] == 'lam':
                            continue
                        ctx.ob('callback-under-lock', f, None if len(e) > 4 and e[4] else 'a callback runs outside the mutex that removal takes', o.taint)
        lockset(ctx, cls, by_kind(ctx.p, cls, 'seq') + by_kind(ctx.p, cls, 'map'), 'lock-held')
    ub(ctx)


def ub(ctx):
    pass
