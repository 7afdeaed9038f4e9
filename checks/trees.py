"""Containers and trees of instructions, and the indices and descriptions derived from them."""
from client import *
import itertools
from valmodel import *
from checks import check
from checks.vars import agrees, trace, txt
from checks.leaf import const_of


def tree_env(I, st, fr, node, name, recv, args):
    if args is None:
        return None
    last = name.split('::')[-1]
    if name == 'oacdrv::Gone':
        I.ev(st, 'drv', last, (C(const_of(I, st, args[0])),), C(None))
        return [(st, C(None))]
    return None


def observed(o):
    """the observations, or what the program ended with"""
    if o.kind != 'ret':
        return None, 'ends with %s %s' % (o.kind, o.cls or show(o.val))
    return [e[:2] for e in trace(o)], None


def unlike(have, want):
    for i in range(max(len(have), len(want))):
        h, w = (x[i] if i < len(x) else None for x in (have, want))
        if h != w:
            return 'observed %s instead of %s (after %s)' % (txt(h + (None,)) if h else 'nothing', txt(w + (None,)) if w else 'nothing',
                                                             '; '.join(txt(x + (None,)) for x in have[max(0, i - 5):i]))


def sections(tr):
    out, cur = {}, []
    for e in tr:
        if e[0] == 'Mark':
            cur = out.setdefault(e[1][0], [])
        else:
            cur.append(e)
    return out


def see(name, *args):
    return (name, args)


# ---------------------------------------------------------------------- containers
class Box:
    """what holds instructions: any number, one or none"""

    def __init__(self, room):
        self.room, self.items = room, []

    def insert(self, k, i):
        if self.room == 0 or i < 0 or i > len(self.items) or self.room == 1 and i != 0:
            return False, None
        if self.room == 1:
            old, self.items = self.items, [k]
            return True, old[0] if old else None
        self.items.insert(i, k)
        return True, None

    def append(self, k):
        return (False, None) if self.room == 1 and self.items else self.insert(k, len(self.items))

    def take(self, i):
        return self.items.pop(i) if 0 <= i < len(self.items) else -1


def pairs(ops):
    return [(k, ops[2 * k], ops[2 * k + 1] - 1) for k in range(len(ops) // 2)]


def held_by(ops, room, proc):
    """each instruction is in one place and is destroyed once"""
    box, out = Box(room), []
    for k, op, i in pairs(ops):
        out.append(see('Mark', k))
        if op == 2:
            x = box.take(i)
            out.append(see('SeenInt', 1, x))
            gone = None if x == -1 else x
        else:
            if proc and op == 1 and i < 0:
                ok, gone = False, None
            else:
                ok, gone = box.insert(k, i) if op == 0 else box.append(k)
            out.append(see('SeenBool', 0, ok))
            if not ok:
                gone = None if proc and op == 1 and i < 0 else k
        if gone is not None:
            out.append(see('Gone', gone))
        out.append(see('SeenInt', 2, len(box.items)))
        out += [see('SeenInt', 3, x) for x in box.items]
        if proc:
            root = box.items[0] if len(box.items) == 1 else -1
            out += [see('SeenInt', 4, root), see('SeenInt', 5, root)]
        else:
            out += [see('SeenInt', 4, x) for x in box.items]
    out.append(see('Mark', 99))
    return out, box.items


def in_place(ops, room, what, proc=False, self_id=None):
    want, rest = held_by(ops, room, proc)

    def tidy(tr):
        """what an operation destroys may go before or after its result is seen"""
        out = []
        for e in tr:
            if e[0] == 'Gone':
                j = len(out)
                while j and out[j - 1][0] in ('SeenBool', 'SeenInt') and out[j - 1][1][0] < 2:
                    j -= 1
                out.insert(j, e)
            else:
                out.append(e)
        return out

    def pred(o):
        tr, bad = observed(o)
        if bad:
            return what + bad
        i = tr.index(see('Mark', 99)) if see('Mark', 99) in tr else len(tr)
        bad = unlike(tidy(tr[:i + 1]), tidy(want))
        if bad:
            return what + bad
        left = sorted(e[1][0] for e in tr[i:] if e[0] == 'Gone' and e[1][0] != self_id)
        if left != sorted(rest):
            return '%swith it, the instructions %s are destroyed instead of %s' % (what, left, sorted(rest))
    return pred


# ---------------------------------------------------------------------- trees
def plan(ops):
    ops = ops[:-1]
    kids, nxt = {0: []}, {0: []}
    for k in range(1, len(ops) // 2 + 1):
        p = ops[2 * k - 2]
        kids[k], nxt[k] = [], []
        kids[p].append(k)
        if ops[2 * k - 1] == 1:
            nxt[p].append(k)
    return kids, nxt


def levels(kids):
    out, front = [], [0]
    while front:
        out += front
        front = [c for k in front for c in kids[k]]
    return out


def of_tree(ops):
    kids, nxt = plan(ops)
    n = len(kids)

    def tree(children):
        order = levels(children)
        return sorted(k for k in order if not children[k]), order, children[0]

    def shape(sec):
        ids = lambda what: [e[1][1] for e in sec if e[0] == 'SeenInt' and e[1][0] == what]
        return sorted(ids(0)), ids(1), ids(2)

    def pred(o):
        tr, bad = observed(o)
        what = 'a tree with %s: ' % ', '.join('%s below %s%s' % (k, ops[2 * k - 2], ', next' if ops[2 * k - 1] == 1 else '') for k in range(1, n)) if n > 1 \
            else 'a single instruction: '
        if bad:
            return what + bad
        sec = sections(tr)
        for mark, children, name in ((0, kids, 'whole tree'), (1, nxt, 'tree of what is next')):
            have, want = shape(sec.get(mark, [])), tree(children)
            for h, w, part in zip(have, want, ('leaves', 'instructions by level', 'children of the root')):
                if h != w:
                    return '%sthe %s of the %s are %s instead of %s' % (what, part, name, h, w)
        if see('SeenBool', 0, False) not in sec[0]:
            return what + 'the tree says it is empty'
        m = sec.get(2, [])
        if m[:1] != [see('SeenInt', 0, n)]:
            return '%sthe map counts %s' % (what, txt(m[0] + (None,)) if m else 'nothing')
        index = [e[1][1] for e in m if e[0] == 'SeenInt' and e[1][0] == 1]
        if sorted(index) != list(range(n)):
            return '%sthe indices %s are not 0 to %d' % (what, index, n - 1)
        back = [e[1][1] for e in m if e[0] == 'SeenInt' and e[1][0] == 2]
        if back != sorted(range(n), key=lambda k: index[k]):
            return '%sinstructions by index are %s, with indices %s' % (what, back, index)
        if m[-1] != see('SeenBool', 0, False):
            return what + 'an instruction outside the tree has an index'

        def info(k):
            cat = 'kAction' if not kids[k] else 'kDecorator' if len(kids[k]) == 1 else 'kCompound'
            out = [see('SeenInt', 0, index[k]), see('SeenText', 0, 'Root' if k == 0 else 'Node'), see('SeenInt', 1, {'kAction': 0, 'kDecorator': 1, 'kCompound': 2}[cat]),
                   see('SeenText', 1, 'name'), see('SeenText', 2, 'n%s' % (k if k < 2 else 'k')), see('SeenInt', 2, len(kids[k]))]
            for c in kids[k]:
                out += info(c)
            return out
        for mark, want, name in ((3, info(0), 'the description'), (4, info(0) + [see('SeenBool', 0, True)], 'a copy of the description'),
                                 (5, [see('SeenInt', 0, i) for i in range(n)], 'descriptions by index'), (6, info(0), 'the description afterwards')):
            bad = unlike(sec.get(mark, []), want)
            if bad:
                return '%s%s: %s' % (what, name, bad)
    return pred


def exactly(want, what):
    def pred(o):
        tr, bad = observed(o)
        bad = bad or unlike(tr, want)
        return bad and what + bad
    return pred


def of_job(names, children, what):
    def pred(o):
        tr, bad = observed(o)
        if bad:
            return what + bad
        sec = sections(tr)
        ints = lambda mark, i: [e[1][1] for e in sec.get(mark, []) if e[0] == 'SeenInt' and e[1][0] == i]
        index = ints(0, 1)
        known = ['bac'.index(x) < names for x in 'abc']
        if ints(0, 0) != [names] or [i >= 0 for i in index] != known or sorted(i for i in index if i >= 0) != list(range(names)):
            return '%svariables a, b, c have the indices %s of %s' % (what, index, ints(0, 0))
        bad = unlike(sec.get(1, []), [see('SeenInt', 0, 0), see('SeenBool', 0, False), see('SeenBool', 0, False)])
        if bad:
            return '%swithout instructions: %s' % (what, bad)
        if ints(2, 0) != [children + 1] or sorted(ints(2, 1)) != list(range(children + 1)):
            return '%sinstructions have the indices %s of %s' % (what, ints(2, 1), ints(2, 0))
        bad = unlike([e for e in sec[2] if e[0] == 'SeenBool'], [see('SeenBool', 0, ints(2, 1)[0] == 0)])
        if bad:
            return '%sthe first by index: %s' % (what, bad)
        bad = unlike([e for e in sec.get(3, []) if e[0] != 'SeenText'], [see('SeenInt', 0, children + 1), see('SeenInt', 1, names), see('SeenBool', 1, True),
                                                                          see('SeenBool', 2, False), see('SeenInt', 2, children)])
        if bad:
            return '%sthe description: %s' % (what, bad)
    return pred


NAME = {0: 'insert at %d', 1: 'append', 2: 'take %d'}


def contents(thorough):
    one = [(0, i) for i in (0, 1, 2, 3)] + [(1, 1)] + [(2, i) for i in (0, 1, 2, 3)]
    for n in range(1, 4):
        for seq in itertools.product(one, repeat=n):
            if n < 3 or thorough or seq[0] in ((1, 1), (0, 1)):
                yield sum(seq, ())
    for last in one:
        yield (1, 1, 1, 1, 1, 1) + last
        if thorough:
            for x in one:
                yield (1, 1, 1, 1) + x + last


def forests(n, thorough):
    for parents in itertools.product(*[range(k) for k in range(1, n)]):
        flags = list(itertools.product((0, 1), repeat=n - 1)) if n < 4 or thorough else [(1,) * (n - 1), (0,) * (n - 1), (1, 0, 1, 0)[:n - 1], (0, 1, 1, 0)[:n - 1]]
        for f in flags:
            yield sum(zip(parents, f), ()) + (-1,)


@check('C35', rule='every-instruction-in-one-place',
       explain='Whatever is inserted into and taken from a compound, a decorator, a leaf or a procedure, each instruction is in exactly one place, in '
               'the order asked for, and is destroyed once. For every tree of instructions, its copies in InstructionTree hold the same instructions '
               'in the same structure, their indices are the numbers from zero, and the descriptions by index agree with them and their copies.')
def c35(ctx):
    jobs = []

    def job(rule, name, ops, pred):
        jobs.append((rule, name, pred, dict(extra=val_hook(program(ops, tree_env)), max_time=60, opaque=(), deep=True)))
    for ops in contents(ctx.thorough):
        said = 'after ' + ', '.join(NAME[op] % i if '%' in NAME[op] else NAME[op] for _, op, i in pairs(ops)) + ': '
        for room, name, sid in ((9, 'CompoundChildren', None), (1, 'DecoratorChildren', None), (0, 'LeafChildren', 50)):
            if room or len(ops) < 5:
                job('one-place', name, ops + (-1,), in_place(ops, room, said, self_id=sid))
        job('one-place', 'TopInstructions', ops + (-1,), in_place(ops, 9, said, proc=True))
    job('one-place', 'TopInstructions', (1, 0, 1, 1, 1, 0, -1), in_place((1, 0, 1, 1, 1, 0), 9, 'pushing nothing: ', proc=True))
    for n in range(1, 6 if ctx.thorough else 5):
        for ops in forests(n, ctx.thorough and n < 5):
            job('same-tree', 'Trees', ops, of_tree(ops))
    for names in range(4):
        for children in range(3):
            job('indices', 'Jobs', (names, children), of_job(names, children, '%d variables and %d instructions: ' % (names, children + 1)))
    for kind in range(3):
        for idx in itertools.product(range(4), repeat=3) if kind == 2 else [(0, 1, 2)]:
            ok = kind == 2 and sorted(idx) == [0, 1, 2]
            want = ([see('SeenInt', 0, 3)] if kind == 2 else []) + ([see('SeenInt', 1, 3)] if ok else [see('SeenInt', 2, 0)])
            job('refused', 'Impossible', (kind,) + idx, exactly(want, '%s, indices %s: ' % (('one child twice', 'no child', 'two children')[kind], idx)))
    job('refused', 'Nothing', (0,), exactly([see('SeenInt', 0, 0), see('SeenBool', 0, False), see('SeenInt', 1, 0), see('SeenBool', 1, False)], 'without instructions: '))
    for n in range(1, 4):
        for idx in itertools.product(range(n + 1), repeat=n):
            want = [see('SeenInt', 0, i) for i in range(n)] if sorted(idx) == list(range(n)) else [see('SeenInt', 1, 0)]
            job('refused', 'Ordered', idx + (-1,), exactly(want, 'descriptions with indices %s: ' % (idx,)))
    ctx.parallel(jobs)
