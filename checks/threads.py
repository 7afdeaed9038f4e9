"""Objects used by several threads: lock sets per thread role, waits, wake-ups and thread ends."""
from chk import *
from absint import strip_t
from prog import walk
from checks import check

NS = 'sup::oac_tree::'
SYNC = ('mutex', 'condition_variable', 'atomic', 'std::future', 'std::thread', 'std::shared_future')


def locks_of(rec):
    return frozenset(rec[3])


def gather(ctx, fns, cls):
    """accesses to members of cls (or its bases) on `this`, made by the given entry functions: field -> [(mode, locks, file, line, fn, entry)]"""
    out = {}
    own = set(ctx.p.bases(cls))
    for f in fns:
        save, ctx.accesses = ctx.accesses, set()
        outs = ctx.paths(f, ModCfg(modular=False, hook=only(ctx.p, own), max_time=40))
        got, ctx.accesses = ctx.accesses, save | ctx.accesses
        if outs is None:
            continue
        for c, fld, mode, locks, file, line, fn, isthis in got:
            if isthis and c in own:
                out.setdefault((c, fld), []).append((mode, frozenset(mutex_name(l) for l in locks), file, line, fn, f))
    return out


def only(p, own):
    """analyse through the methods of the object itself and the free functions next to them; everything else is one opaque step"""
    files = {p.funcs[m['f']]['file'] for c in own for m in p.methods_of.get(c, ()) if m['f'] in p.funcs}

    def hook(I, st, fr, node, name, recv, args):
        if args is None or not name.startswith(NS):
            return None
        f = I.p.funcs.get(node.get('f', ''))
        if name.rsplit('::', 1)[0] in own and (recv is None or recv[:2] == ('o', 0)):
            return None
        if f is not None and trivial(f) and not node.get('virt'):
            return None
        if f is not None and 'body' in f and f['file'] in files and name.rsplit('::', 1)[0] not in p.records:
            return None
        return I.opaque_call(node, st, fr, name, recv, args)
    return hook


def mutex_name(l):
    """the member that is locked, whatever the class the object is seen as"""
    return l.rsplit("'", 2)[-2] if l.startswith("('fld'") else l


def shared(ctx, c, fld):
    f = next((x for x in ctx.p.records[c]['fields'] if x['n'] == fld), None)
    return f is not None and not any(s in f['t'] for s in SYNC) and not f['t'].startswith('const ')


def method(p, cls, name):
    for c in p.bases(cls):
        for m in p.methods_of.get(c, ()):
            if m['name'] == name:
                f = p.funcs.get(m['f'])
                if f is not None and 'body' in f:
                    return f
                fs = [x for x in p.byname.get(m['n'], ()) if 'body' in x]
                if fs:
                    return fs[0]
    return None


ANY_THREAD = ('Halt', 'HaltImpl', 'GetStatus', 'IsHaltRequested')
JOB_THREAD = ('ExecuteSingle', 'Reset', 'InitHook', 'ExecuteSingleImpl', 'ResetHook', 'NextInstructionsImpl', 'Preamble', 'Postamble')


@check('C45', rule='lock-set analysis per thread role', explain='For every instruction type: the members touched by the operations any thread may call (halt, status) and by those of the job thread, with the mutexes held at each access.')
def c45(ctx):
    p = ctx.p
    for cls in p.derived(NS + 'Instruction') + [NS + 'Instruction']:
        rec = p.records[cls]
        if not rec['file'].startswith('/repo/src') and '/src/lib/' not in rec['file']:
            continue
        a = gather(ctx, [f for f in (method(p, cls, n) for n in ANY_THREAD) if f], cls)
        b = gather(ctx, [f for f in (method(p, cls, n) for n in JOB_THREAD) if f], cls)
        for key in sorted(set(a) | set(b)):
            c, fld = key
            if not shared(ctx, c, fld):
                continue
            for x in uniq(a.get(key, ())):
                bad = None
                for y in uniq(b.get(key, ())) + uniq(a.get(key, ())):
                    if 'w' in (x[0], y[0]) and not (x[1] & y[1]):
                        bad = '%s of %s at line %d may run at the same time as the %s in %s (%s:%d) without a common mutex' % (
                            kind(x), fld, x[3], kind(y), y[4].split('::', 2)[-1], y[2].split('/')[-1], y[3])
                        break
                ctx.ob('halt-race', {'file': x[2], 'l': x[3], 'n': x[4]}, bad)


def kind(x):
    return 'write' if x[0] == 'w' else 'read'


def uniq(l):
    seen, out = set(), []
    for x in sorted(l, key=lambda r: (r[2], r[3], r[0], sorted(r[1]))):
        k = x[:5]
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


ENABLES = ('push_back', 'push_front', 'insert', 'emplace', 'emplace_back', 'emplace_front', 'assign', 'create', 'resize', 'swap', 'operator=', 'insert_or_assign', 'try_emplace')


def entries(p, cls):
    """what other objects and threads may call: public methods, and private ones no method of the class calls (thread bodies)"""
    ms = [(m, p.funcs.get(m['f'])) for m in p.methods_of[cls]]
    ms = [(m, f) for m, f in ms if f is not None and ('body' in f)]
    called = set()
    for m, f in ms:
        for n in walk(f):
            if isinstance(n, dict) and n.get('k') in ('call', 'memfn') and n.get('f') != m['f']:
                called.add(n.get('f'))
    out = []
    for m, f in ms:
        if m['name'] == cls.split('::')[-1].split('<')[0]:
            continue
        if m['acc'] == 0 or m['f'] not in called or m['name'].startswith('~'):
            out.append((m, f))
    return out


def fields_read(p, cls, node, depth=4, seen=None):
    """members of cls that a piece of code reads, through the methods of the class it calls"""
    seen = set() if seen is None else seen
    names = {f['n'] for f in p.fields(cls)}
    own = {m['f'] for c in p.bases(cls) for m in p.methods_of.get(c, ())}
    out = set()
    for n in walk(node):
        if not isinstance(n, dict):
            continue
        if n.get('k') == 'mem' and n.get('f') in names:
            out.add(n['f'])
        elif n.get('f') in own and n['f'] not in seen and depth:
            seen.add(n['f'])
            g = p.funcs.get(n['f'])
            if g is not None and 'body' in g:
                out |= fields_read(p, cls, g['body'], depth - 1, seen)
    return out


def is_this(loc, fld):
    return loc[0] == 'fld' and loc[1][:2] == ('o', 0) and loc[2] == fld


def thread_classes(p):
    return [n for n, r in sorted(p.records.items()) if '/src/lib/' in r['file'] and n not in mutex_classes(p)
            and any('std::future<' in f['t'] or 'std::thread' in f['t'] for f in r['fields'])]


def mutex_classes(p):
    out = []
    for n, r in sorted(p.records.items()):
        if '/src/lib/' not in r['file'] or NS + 'Instruction' in p.bases(n) or n == NS + 'Variable':
            continue
        if any('mutex' in f['t'] for f in r['fields']):
            out.append(n)
    return out


@check('C46', rule='lock-set, wait-predicate, wake-up and thread-end analysis', explain='Every class that owns a mutex, condition variable or thread: accesses to its members with the locks held, waits with the members their predicate reads, changes of those members and the notifications that follow, ends of threads before members.')
def c46(ctx):
    p = ctx.p
    for cls in mutex_classes(p):
        rec = p.records[cls]
        own = set(p.bases(cls))
        ents = entries(p, cls)
        acc, runs = {}, []
        for m, f in ents:
            save, ctx.accesses = ctx.accesses, set()
            outs = ctx.paths(f, ModCfg(modular=False, hook=only(p, own), max_time=60))
            got, ctx.accesses = ctx.accesses, save | ctx.accesses
            if outs is None:
                continue
            runs.append((m, f, outs))
            if not m['name'].startswith('~'):
                for c, fld, mode, locks, file, line, fn, isthis in got:
                    if isthis and c == cls:
                        acc.setdefault(fld, []).append((mode, frozenset(mutex_name(l) for l in locks), file, line, fn))
        # every member that changes is accessed under one mutex
        for fld, l in sorted(acc.items()):
            if not shared(ctx, cls, fld) or not any(a[0] == 'w' for a in l):
                continue
            cnt = {}
            for a in l:
                for k in a[1]:
                    cnt[k] = cnt.get(k, 0) + 1
            best = max(sorted(cnt), key=lambda k: cnt[k]) if cnt else None
            for a in uniq(l):
                ctx.ob('lock-held', {'file': a[2], 'l': a[3], 'n': a[4]}, None if best in a[1] else '%s of %s without the mutex that protects it' % (kind(a), fld))
        # waits
        preds, waiters = {}, {}
        for m, f, outs in runs:
            for o in outs:
                for e in flat(o.log):
                    if e[0] not in ('wait', 'wait-unlocked'):
                        continue
                    cv = e[1][2] if e[1][0] == 'fld' else None
                    if cv is None:
                        continue
                    if e[0] == 'wait-unlocked':
                        ctx.ob('wait-holds-lock', f, 'waits for %s without holding its mutex' % cv)
                        continue
                    waiters.setdefault(cv, set()).add(m['f'])
                    src = [n for n in walk(f) if isinstance(n, dict) and n.get('k') == 'lambda'] if e[3] == TRUE else \
                          [n['c'] for n in walk(f) if isinstance(n, dict) and n.get('s') in ('while', 'do', 'for') and n.get('c')]
                    read = set()
                    for n in src:
                        read |= fields_read(p, cls, n)
                    preds.setdefault(cv, set()).update(x for x in read or fields_read(p, cls, f) if shared(ctx, cls, x))
                    ctx.ob('wait-rechecks', f, None if e[3] == TRUE or src else 'waits for %s without a condition that is checked again' % cv)
        for cv, flds in sorted(preds.items()):
            kinds = set()
            for m, f, outs in runs:
                for o in outs:
                    if o.kind != 'ret':
                        continue
                    for log in logs(o.log):
                        check_wakeups(ctx, m, f, cv, flds, log, kinds, o)
            # one notification for several waiters is enough only if each of them takes what it waited for
            if 'notify_one' in kinds:
                for m, f, outs in runs:
                    if m['f'] not in waiters[cv]:
                        continue
                    takes = any(e[0] in ('seq', 'map', 'set') and any(is_this(e[2] if e[0] != 'set' else e[1], x) for x in flds) for o in outs for e in flat(o.log))
                    bad = not takes and not m['name'].startswith('~')
                    ctx.ob('all-waiters-woken', f, 'any number of threads may wait here for %s, but only one of them is notified' % cv if bad else None)
        # threads end before the members they use
        ends_before_members(ctx, cls, runs)
    for cls in thread_classes(p):
        ends_before_members(ctx, cls, [(m, f, ctx.paths(f, ModCfg(modular=False, hook=only(p, set(p.bases(cls))), max_time=60)) or [])
                                       for m, f in entries(p, cls) if m['name'].startswith('~')])


def logs(log):
    """the event sequence itself and that of every loop body"""
    yield log
    for e in log:
        if e[0] == 'star':
            for it in e[2]:
                yield from logs(it)


def check_wakeups(ctx, m, f, cv, flds, log, kinds, o):
    start = 0
    for i, e in enumerate(log):
        if e[0] == 'lock':
            start = i
        if e[0] == 'notify' and is_this(e[2], cv):
            kinds.add(e[1])
        l = e[2] if e[0] in ('seq', 'map') else e[1] if e[0] == 'set' else None
        if l is None or not any(is_this(l, x) for x in flds) or e[0] != 'set' and e[1] not in ENABLES:
            continue
        after = [k for k in range(start, len(log)) if log[k][0] == 'notify' and is_this(log[k][2], cv)
                 and not any(x[0] in ('wait', 'wait-unlocked') for x in log[i:k])]
        ctx.ob('notify-after-change', f, None if after else 'changes %s, which threads waiting for %s look at, without waking them' % (l[2], cv),
               o.taint, describe(o) if not after else ())


def ends_before_members(ctx, cls, runs):
    p = ctx.p
    fl = p.records[cls]['fields']
    for k, f in enumerate(fl):
        if 'std::future<' not in f['t'] and 'std::thread' not in f['t']:
            continue
        dtor = [r for r in runs if r[0]['name'].startswith('~')]
        joined = bool(dtor) and all(any(e[0] == 'join' for e in flat(o.log)) for o in dtor[0][2] if o.kind == 'ret')
        later = [x['n'] for x in fl[k + 1:]]
        where = dtor[0][1] if dtor else {'file': p.records[cls]['file'], 'l': p.records[cls]['l'], 'n': cls}
        ctx.ob('thread-ends-first', where, None if joined or not later else 'the thread of %s may still run when %s is destroyed' % (f['n'], ', '.join(later)))
