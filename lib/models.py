"""Abstract transfer functions for the standard library vocabulary."""
import math
from absint import *

NOOP = {'std::forward', 'std::ref', 'std::cref', 'std::addressof', 'std::as_const', 'std::to_address'}


def base_name(name):
    """std::__cxx11::list::push_back -> (class head, method)"""
    parts = name.split('::')
    return '::'.join(parts[:-1]), parts[-1]


def std_call(I, e, st, fr, name):
    hook = I.cfg.call_hook(I, st, fr, e, name, 'std', None)
    if hook is not None:
        return hook
    if 'obj' in e:
        return member_call(I, e, st, fr, name)
    return free_call(I, e, st, fr, name)


def with_args(I, e, st, fr, fn, nodes=None):
    out = []
    for s, args in I.eval_args(e['a'] if nodes is None else nodes, st, fr, None):
        if isinstance(args, Exc):
            out.append((s, args))
        else:
            out += fn(s, args)
    return out


def member_call(I, e, st, fr, name):
    obj = e['obj']
    ot = obj.get('t', '')
    k = classify(ot)
    if k == 'ptr':
        k = classify(strip_t(ot)[:-1])
    head, meth = base_name(name)
    if '::operator' in name:
        meth = name[name.index('::operator') + 2:]
        head = name[:name.index('::operator')]
    out = []
    if k in ('seq', 'map', 'set', 'str') or head.split('<')[0] in ('std::basic_string',):
        for s, l in I.lv(obj, st, fr):
            if isinstance(l, Exc):
                out.append((s, l))
                continue
            v = I.read(s, l, ot)
            if v[0] == 'ref':
                l = I.canon_loc(s, v[1])
                v = I.read(s, l, ot)
            mark(I, s, fr, obj, meth)
            if k == 'str' or 'basic_string' in head:
                out += str_method(I, e, s, fr, meth, l, v)
            else:
                if v[0] not in ('seq', 'map', 'set'):
                    v = I.opaque_of_type(v, ot)
                    if v[0] in ('seq', 'map', 'set'):
                        s.store[I.canon_loc(s, l)] = v
                out += cont_method(I, e, s, fr, k, meth, I.canon_loc(s, l), v)
        return out
    if k == 'mutex' or k in ('atomic', 'async', 'lock') or head == 'std::condition_variable' or 'condition_variable' in head \
            or head == 'std::__basic_future' or 'atomic' in head:
        return sync_method(I, e, st, fr, head, meth, k)
    if k in ('smart', 'func', 'opt') or head.startswith('std::unique_ptr') or head.startswith('std::shared_ptr') \
            or head.startswith('std::__shared_ptr') or head == 'std::function':
        return handle_method(I, e, st, fr, head, meth)
    if 'iterator' in head or 'iterator' in ot:
        return iter_method(I, e, st, fr, meth)
    # opaque external object
    for s, recv in I.eval(obj, st, fr):
        if isinstance(recv, Exc):
            out.append((s, recv))
            continue
        recv = I.val(s, recv, ot)

        def go(s2, args, recv=recv):
            if meth in ('operator=',) and args:
                for s3, l in I.lv(obj, s2, fr):
                    if not isinstance(l, Exc) and l[0] != 'self':
                        I.write(s3, l, I.val(s3, args[0]))
                    return [(s3, I.val(s3, args[0]))]
            if head in ('std::exception',) and meth == 'what':
                return [(s2, I.typed(T('what', recv), 'const char *'))]
            if 'stringstream' in head:
                text = s2.store.get(('g', 'stream', recv), C(''))
                if meth == 'str' and not args and text != C(None):
                    return [(s2, text)]
                if meth == 'operator<<':
                    put_text(s2, recv, I.norm(s2, I.val(s2, args[0])))
                    for s3, l in I.lv(obj, s2, fr):
                        return [(s3, l if isinstance(l, Exc) else ('ref', l))]
            return I.opaque_call(e, s2, fr, name, recv, args)
        out += with_args(I, e, s, fr, go)
    return out


MUTATORS = {'push_back', 'push_front', 'pop_back', 'pop_front', 'clear', 'insert', 'emplace', 'emplace_back', 'emplace_front',
            'erase', 'operator=', 'operator[]', 'resize', 'assign', 'swap', 'push', 'pop', 'reserve', 'store', 'reset',
            'release', 'append', 'operator+=', 'remove', 'remove_if', 'sort', 'splice', 'try_emplace', 'insert_or_assign', 'merge'}


def mark(I, st, fr, obj, meth):
    if meth in MUTATORS:
        I.mark_write(st, fr, obj)


# ---------------------------------------------------------------------------- containers
def cont_method(I, e, st, fr, k, meth, l, v):
    rt = e.get('t', '')
    if meth == 'empty':
        return [(st, T('empty', v) if v[2] is not None and not v[1] else C(not (v[1] or (v[0] == 'seq' and v[3]) or v[2] is not None)))] \
            if v[0] != 'seq' or not v[3] or v[1] or v[2] is None else [(st, FALSE)]
    if meth in ('size', 'length'):
        if v[2] is None:
            return [(st, C(len(v[1]) + (len(v[3]) if v[0] == 'seq' else 0)))]
        if not v[1] and not (v[0] == 'seq' and v[3]):
            return [(st, I.typed(T('len', v[2]), 'unsigned long'))]
        return [(st, I.typed(T('len', v), 'unsigned long'))]
    if meth in ('begin', 'cbegin'):
        return [(st, I.it_begin(st, l))]
    if meth in ('end', 'cend'):
        return [(st, ('it', l, ('end',)))]
    if meth in ('rbegin', 'crbegin', 'rend', 'crend'):
        if v[2] is None and v[0] == 'seq':
            r = ('tmp', I.tick())
            st.store[r] = ('seq', tuple(reversed(v[1] + v[3])), None, ())
            return [(st, I.it_begin(st, r) if 'begin' in meth else ('it', r, ('end',)))]
        # reversed traversal of an opaque sequence is again opaque; both ends share the location
        r = ('rev', l)
        if r not in st.store:
            st.store[r] = ('seq', (), I.typed(T('rev', v[2]), I.ttype.get(v[2], '')), ())
        return [(st, I.it_begin(st, r) if 'begin' in meth else ('it', r, ('end',)))]
    if meth in ('reserve', 'shrink_to_fit'):
        return with_args(I, e, st, fr, lambda s, a: [(s, C(None))])
    if meth == 'clear':
        I.ev(st, 'seq', 'clear', l)
        st.store[l] = ('seq', (), None, ()) if k == 'seq' else (k, (), None)
        return [(s, x if x is not None else C(None)) for s, x in I.destroy(st, v, e['obj'].get('t', ''))]
    if meth == 'operator=':
        def go(s, a):
            src = I.val(s, a[0])
            if src[0] not in ('seq', 'map', 'set'):
                src = I.opaque_of_type(src, e['obj'].get('t', ''))
            if e.get('asg') == 'move' and a[0][0] == 'ref':
                sl = I.canon_loc(s, a[0][1])
                if sl != l:
                    s.store[sl] = ('seq', (), None, ()) if k == 'seq' else (k, (), None)
            I.ev(s, 'seq', 'assign', l, src)
            s.store[l] = src
            return [(s, ('ref', l))]
        return with_args(I, e, st, fr, go)
    if meth == 'swap':
        def go(s, a):
            if a[0][0] == 'ref':
                o = I.canon_loc(s, a[0][1])
                s.store[l], s.store[o] = I.read(s, o), I.read(s, l)
            return [(s, C(None))]
        return with_args(I, e, st, fr, go)
    if k == 'seq':
        return seq_method(I, e, st, fr, meth, l, v)
    return map_method(I, e, st, fr, k, meth, l, v)


def setv(I, st, l, v, ret=C(None)):
    st.store[l] = v
    return [(st, ret)]


def seq_head(I, st, l, v, fr, e, what):
    """materialise the first element -> list of (st, elem|Exc, rest-seq)"""
    if v[1]:
        return [(st, v[1][0], ('seq', v[1][1:], v[2], v[3]))]
    if v[2] is None:
        if v[3]:
            return [(st, v[3][0], ('seq', (), None, v[3][1:]))]
        return [(st, I.ub(st, fr, e, what + ' on empty container'), None)]
    out = []
    for s, emp in I.decide_empty(st, v[2]):
        if emp:
            v2 = ('seq', (), None, v[3])
            s.store[l] = v2
            out += seq_head(I, s, l, v2, fr, e, what)
        else:
            h = T('elem', v[2], C(0))
            t = split_targs(strip_t(I.ttype.get(v[2], '')))
            I.typed(h, t[0] if t else 'int')
            hv = I.opaque_of_type(h, t[0] if t else 'int')
            rest = I.typed(T('tail', v[2]), I.ttype.get(v[2], ''))
            nv = ('seq', (hv,), rest, v[3])
            s.store[l] = nv
            out.append((s, hv, ('seq', (), rest, v[3])))
    return out


def seq_last(I, st, l, v, fr, e, what):
    if v[3]:
        return [(st, v[3][-1], ('seq', v[1], v[2], v[3][:-1]))]
    if v[2] is None:
        if v[1]:
            return [(st, v[1][-1], ('seq', v[1][:-1], None, ()))]
        return [(st, I.ub(st, fr, e, what + ' on empty container'), None)]
    out = []
    for s, emp in I.decide_empty(st, v[2]):
        if emp:
            v2 = ('seq', v[1], None, ())
            s.store[l] = v2
            out += seq_last(I, s, l, v2, fr, e, what)
        else:
            h = T('last', v[2])
            t = split_targs(strip_t(I.ttype.get(v[2], '')))
            hv = I.opaque_of_type(I.typed(h, t[0] if t else 'int'), t[0] if t else 'int')
            rest = I.typed(T('init', v[2]), I.ttype.get(v[2], ''))
            s.store[l] = ('seq', v[1], rest, (hv,))
            out.append((s, hv, ('seq', v[1], rest, ())))
    return out


def seq_push(I, st, l, v, x, back=True):
    if back:
        nv = ('seq', v[1] + (x,), None, ()) if v[2] is None and not v[3] else ('seq', v[1], v[2], v[3] + (x,))
    else:
        nv = ('seq', (x,) + v[1], v[2], v[3])
    I.ev(st, 'seq', 'push_back' if back else 'push_front', l, x)
    st.store[l] = nv


def elem_type(I, e):
    t = split_targs(strip_t(e['obj'].get('t', '')))
    return t[0] if t else 'int'


def elem_result(I, st, l, x):
    """reference to an element value"""
    if x[0] in ('o', 'a', 't') and classify(I.ttype.get(x, '') or (x[2] if x[0] == 'o' else '')) == 'cls' \
            and not I.p.enums.get(strip_t(I.ttype.get(x, ''))):
        return x
    t = ('tmp', I.tick())
    st.store[t] = x
    return ('ref', t)


def seq_method(I, e, st, fr, meth, l, v):
    et = elem_type(I, e)
    if meth in ('push_back', 'push_front', 'push'):
        def go(s, a):
            x = I.val(s, a[0])
            x = I.copyval(s, x, et) if x not in s.temps else x
            s.temps = tuple(y for y in s.temps if y != x)
            if a[0][0] == 'ref' and classify(et) == 'smart':
                I.canon_loc(s, a[0][1]) and s.store.__setitem__(I.canon_loc(s, a[0][1]), NULL)
            seq_push(I, s, l, I.read(s, l), x, meth != 'push_front')
            return [(s, C(None))]
        return with_args(I, e, st, fr, go)
    if meth in ('emplace_back', 'emplace_front'):
        return with_args(I, e, st, fr, lambda s, a: [x for x in emplace_in(I, s, fr, e, l, et, a, meth == 'emplace_back')])
    if meth in ('front', 'back', 'top'):
        out = []
        for s, x, rest in (seq_head if meth == 'front' else seq_last)(I, st, l, v, fr, e, meth):
            out.append((s, x if isinstance(x, Exc) else elem_result(I, s, l, x)))
        return out
    if meth in ('pop_front', 'pop_back', 'pop'):
        out = []
        h = head_t(e['obj'].get('t', ''))
        back = meth == 'pop_back' or (meth == 'pop' and h == 'std::stack')
        for s, x, rest in (seq_last if back else seq_head)(I, st, l, v, fr, e, meth):
            if isinstance(x, Exc):
                out.append((s, x))
            else:
                I.ev(s, 'seq', 'pop_back' if back else 'pop_front', l, x)
                s.store[l] = rest
                out.append((s, C(None)))
        return out
    if meth in ('operator[]', 'at', 'data'):
        if meth == 'data':
            return [(st, I.it_begin(st, l))]
        out = []
        for s, i in I.eval(e['a'][0], st, fr):
            if isinstance(i, Exc):
                out.append((s, i))
                continue
            for s2, el in I.index_loc(s, l, I.val(s, i), {'t': et, 'l': e['l'], 'bt': e['obj'].get('t', '')}):
                if isinstance(el, Exc):
                    out.append((s2, el if meth == '[]' else el))
                elif el[0] == 'self':
                    out.append((s2, el[1]))
                else:
                    out.append((s2, ('ref', el)))
        return out
    if meth == 'erase':
        return with_args(I, e, st, fr, lambda s, a: seq_erase(I, s, fr, l, [I.val(s, x) for x in a]))
    if meth in ('remove', 'remove_if'):
        def go(s, a):
            out = []
            for s2, r in filter_seq(I, s, fr, e, l, a[0], meth == 'remove'):
                out.append((s2, r))
            return out
        return with_args(I, e, st, fr, go)
    if meth in ('insert', 'emplace'):
        def go(s, a):
            it = I.val(s, a[0])
            cur = I.read(s, l)
            if len(a) == 2 and it[0] == 'it':
                x = I.val(s, a[1])
                x = I.copyval(s, x, et)
                s.temps = tuple(y for y in s.temps if y != x)
                if classify(et) == 'smart' and a[1][0] == 'ref':
                    s.store[I.canon_loc(s, a[1][1])] = NULL
                if cur[0] == 'seq' and cur[2] is None and it[2][0] == 'i' and isinstance(it[2][1], int) and 0 < it[2][1] < len(cur[1] + cur[3]):
                    items = cur[1] + cur[3]
                    I.ev(s, 'seq', 'insert', l, it, x)
                    s.store[l] = ('seq', items[:it[2][1]] + (x,) + items[it[2][1]:], None, ())
                    return [(s, ('it', l, it[2]))]
                if it[2][0] == 'end':
                    seq_push(I, s, l, cur, x, True)
                    return [(s, ('it', l, ('end',)))]
                if it[2] == I.it_begin(s, l)[2]:
                    seq_push(I, s, l, cur, x, False)
                    return [(s, ('it', l, ('i', 0)))]
            if len(a) == 3 and it[0] == 'it' and it[2][0] == 'end':
                r = I.range_value(s, I.val(s, a[1]), I.val(s, a[2]))
                if r is not None and r[0] == 'seq':
                    I.ev(s, 'seq', 'append', l, r)
                    s.store[l] = concat(I, s, cur, r)
                    return [(s, ('it', l, ('end',)))]
            I.ev(s, 'seq', 'insert', l, it, tuple(I.val(s, x) for x in a[1:]))
            s.store[l] = I.opaque_of_type(I.fresh('inserted', strip_t(e['obj'].get('t', ''))), e['obj'].get('t', ''))
            I.taint(s, 'positional insert')
            return [(s, ('it', l, ('end',)))]
        return with_args(I, e, st, fr, go)
    if meth in ('resize', 'assign'):
        def go(s, a):
            I.ev(s, 'seq', meth, l)
            s.store[l] = I.opaque_of_type(I.fresh(meth, strip_t(e['obj'].get('t', ''))), e['obj'].get('t', ''))
            if not (meth == 'resize' and I.val(s, a[0]) == C(0)):
                I.taint(s, 'container ' + meth)
            else:
                s.store[l] = ('seq', (), None, ())
            return [(s, C(None))]
        return with_args(I, e, st, fr, go)
    I.taint(st, 'sequence method ' + meth)
    return with_args(I, e, st, fr, lambda s, a: I.opaque_call(e, s, fr, e['n'], v, a))


def concat(I, st, a, b):
    if b[2] is None:
        items = b[1] + b[3]
        return ('seq', a[1] + items, None, ()) if a[2] is None and not a[3] else ('seq', a[1], a[2], a[3] + items)
    if a[2] is None:
        return ('seq', a[1] + a[3] + b[1], b[2], b[3])
    return ('seq', a[1], I.typed(T('concat', a[2], a[3], b), I.ttype.get(a[2], '')), ())


def emplace_in(I, s, fr, e, l, et, a, back):
    out = []
    if classify(et) == 'cls' and strip_t(et) in I.p.records:
        for s2, o in construct(I, s, fr, strip_t(et), a):
            if isinstance(o, Exc):
                out.append((s2, o))
                continue
            s2.temps = tuple(y for y in s2.temps if y != o)
            seq_push(I, s2, l, I.read(s2, l), o, back)
            out.append((s2, o))
        return out
    if classify(et) == 'tup':
        x = ('tup', tuple(I.val(s, y) for y in a))
        if len(a) == 1:
            x = I.val(s, a[0])
    else:
        x = I.val(s, a[0]) if a else (I.default(et, 'x') or I.newobj(strip_t(et)))
        if classify(et) == 'smart' and a and a[0][0] == 'ref':
            s.store[I.canon_loc(s, a[0][1])] = NULL
    s.temps = tuple(y for y in s.temps if y != x)
    seq_push(I, s, l, I.read(s, l), x, back)
    return [(s, elem_result(I, s, l, x))]


def construct(I, st, fr, cls, args):
    """construct a repo class from evaluated arguments: choose the constructor by arity"""
    cands = [f for f in I.p.funcs.values() if f.get('isctor') and f.get('cls') == cls and len(f['params']) == len(args)
             and ('body' in f or f.get('inits')) and not f.get('implicit')]
    vals = [I.val(st, a) for a in args]
    if len(args) == 1 and I.clsof(vals[0]) == cls:
        o = I.newobj(cls)
        I.copy_fields(st, o, vals[0])
        st.store[('copyof', o)] = vals[0]
        return [(st, o)]
    o = I.newobj(cls)
    if len(cands) > 1:
        c2 = [f for f in cands if not (len(f['params']) == 1 and classify(f['params'][0]['t']) == 'cls'
                                       and strip_t(f['params'][0]['t']) == cls)]
        cands = c2 or cands
    if not cands:
        I.default_fields(st, o, cls)
        if args:
            flds = I.p.fields(cls)
            r = I.p.records.get(cls)
            if len(args) <= len(flds) and not any(m.get('isctor') for m in r['methods']):
                for f, v in zip(flds, vals):
                    st.store[('fld', o, f['n'])] = v
            I.ev(st, 'ctor', cls, tuple(vals))
        return [(st, o)]
    if len(cands) > 1:
        I.taint(st, 'ambiguous constructor ' + cls)
    f = cands[0]
    fixed = []
    for p, a, v in zip(f['params'], args, vals):
        if p['t'].strip().endswith('&') and classify(p['t']) != 'cls':
            fixed.append(a if a[0] == 'ref' else a)
        else:
            fixed.append(v)
    out = []
    for s, r in I.invoke(st, f, o, fixed, fr):
        if not isinstance(r, Exc):
            I.default_fields(s, o, cls)
        out.append((s, r if isinstance(r, Exc) else o))
    return out


def seq_erase(I, s, fr, l, a):
    v = I.read(s, l)
    if len(a) == 2 and a[0][0] == 'it' and a[1][0] == 'it':
        if a[0][2][0] == 'removed':
            # erase-remove idiom: the new value was computed by remove_if
            newv = a[0][2][1]
            I.ev(s, 'seq', 'erase_removed', l, a[0][2][2])
            s.store[l] = newv
            return [(s, ('it', l, ('end',)))]
        if a[1][2][0] == 'end' and a[0][2] == I.it_begin(s, l)[2]:
            I.ev(s, 'seq', 'clear', l)
            s.store[l] = ('seq', (), None, ())
            return [(s, ('it', l, ('end',)))]
        if a[0][2][0] == 'end' and a[1][2][0] == 'end':
            return [(s, ('it', l, ('end',)))]
        if a[0][2][0] == 'i' and (a[1][2][0] == 'i' and a[0][2][1] <= a[1][2][1] <= len(v[1]) or a[1][2][0] == 'end' and v[2] is None and not v[3]):
            i, j = a[0][2][1], a[1][2][1] if a[1][2][0] == 'i' else len(v[1])
            for x in v[1][i:j]:
                I.ev(s, 'seq', 'erase', l, x)
            s.store[l] = ('seq', v[1][:i] + v[1][j:], v[2], v[3])
            return [(s, ('it', l, ('i', i) if i < len(v[1]) + i - j or v[2] is not None else ('end',)))]
    if len(a) == 1 and a[0][0] == 'it':
        p = a[0][2]
        if p[0] == 'removed' and len(p) > 3:
            s.store[l] = ('seq', p[1][1] + p[3][1:], None, v[3])
            I.ev(s, 'seq', 'erase', l, ('?',))
            return [(s, ('it', l, ('i', len(p[1][1]))))]
        if p[0] == 'i' and p[1] < len(v[1]):
            x = v[1][p[1]]
            I.ev(s, 'seq', 'erase', l, x)
            s.store[l] = ('seq', v[1][:p[1]] + v[1][p[1] + 1:], v[2], v[3])
            return [(s, ('it', l, ('i', p[1])))]
        if p[0] == 'cur':
            if v[2] == p[1] and p[2] == C(0) and not v[1]:
                # first element
                out = []
                for s2, x, rest in seq_head(I, s, l, v, fr, {'l': 0}, 'erase'):
                    if isinstance(x, Exc):
                        out.append((s2, x))
                    else:
                        I.ev(s2, 'seq', 'pop_front', l, x)
                        s2.store[l] = rest
                        out.append((s2, I.it_begin(s2, l)))
                return out
            x = I.elem(p[1], p[2])
            I.ev(s, 'seq', 'erase', l, x)
            nm = I.fresh('erased', I.ttype.get(v[2], ''))
            s.store[l] = ('seq', v[1], nm, v[3])
            return [(s, ('it', l, ('cur', nm, I.fresh('pos', 'unsigned long'))))]
        if p[0] == 'end':
            return [(s, I.ub(s, fr, {'l': 0}, 'erase(end())'))]
    I.taint(s, 'erase')
    I.ev(s, 'seq', 'erase', l, ('?',))
    s.store[l] = I.opaque_of_type(I.fresh('erased', I.ttype.get(v[2], '') if v[2] else ''), I.ttype.get(v[2], '') if v[2] else 'std::vector<int>')
    return [(s, ('it', l, ('end',)))]


def pred_apply(I, st, fr, e, pred, el, byvalue):
    """-> list of (st, bool|Exc): truth of predicate (or equality) on an element"""
    if byvalue:
        x = I.val(st, pred)
        y = I.val(st, el)
        return I.decide_eq(st, y, x)
    out = []
    for s, r in I.apply(st, pred, [el], fr, {'t': 'bool', 'l': e['l']}):
        if isinstance(r, Exc):
            out.append((s, r))
        else:
            r = I.val(s, r)
            out += I.decide(s, r)
    return out


def elem_arg(I, st, loc, mid, pos):
    el = I.elem(mid, pos)
    t = I.ttype.get(el, '')
    if classify(t) == 'cls' and not I.p.enums.get(strip_t(t)) or classify(t) in ('ptr', 'smart'):
        return el
    l = ('elem', loc, el)
    if l not in st.store:
        st.store[l] = I.opaque_of_type(el, t or 'int')
    return ('ref', l)


def known_arg(I, st, loc, v, i):
    x = I.elems_known(v)[i]
    if x[0] in ('o',):
        return x
    l = ('tmp', I.tick())
    st.store[l] = x
    return ('ref', l)


def pred_sig(I, st0, fr, e, pred, loc, mid, byvalue):
    """signature of a predicate on a generic element, for comparing searches: the predicate is evaluated on a
    placeholder element and the resulting facts are recorded"""
    ph = ('x', 'any', mid)
    t = I.ttype.get(I.elem(mid, C(0)), '')
    I.ttype[ph] = t
    s = st0.copy()
    s.log = ()
    s.facts = dict(s.facts)
    before = dict(s.facts)
    brel = dict(s.rels)
    if classify(t) == 'cls' and not I.p.enums.get(strip_t(t)) or classify(t) in ('ptr', 'smart'):
        arg = ph
    else:
        l = ('elem', loc, ph)
        s.store[l] = I.opaque_of_type(ph, t or 'int')
        arg = ('ref', l)
    alts = set()
    try:
        for s2, b in pred_apply(I, s, fr, e, pred, arg, byvalue):
            if isinstance(b, Exc) or not b:
                continue
            f = frozenset((k, v) for k, v in s2.facts.items() if before.get(k) != v)
            r = frozenset((k, v) for k, v in s2.rels.items() if brel.get(k) != v)
            alts.add((f, r))
    except TooComplex:
        return ('?',)
    return ('sig', frozenset(alts))


def search(I, st, fr, e, loc, v, pred, byvalue):
    """first element satisfying pred -> list of (st, position tuple | None | Exc)"""
    out = []
    states = [st]
    els = I.elems_known(v)
    if v[0] == 'seq' and v[2] is None and v[3]:
        els = els + list(v[3])
    for i in range(len(els)):
        nxt = []
        for s in states:
            for s2, b in pred_apply(I, s, fr, e, pred, known_arg(I, s, loc, v, i) if i < len(I.elems_known(v)) else els[i], byvalue):
                if isinstance(b, Exc):
                    out.append((s2, b))
                elif b:
                    out.append((s2, ('i', i)))
                else:
                    nxt.append(s2)
        states = dedup(I, nxt)
    mid = v[2] if v[0] in ('seq', 'map', 'set') else None
    if mid is None:
        return out + [(s, None) for s in states]
    for s in states:
        sig = pred_sig(I, s, fr, e, pred, loc, mid, byvalue)
        known = None
        for (m, sg, val) in s.foralls:
            if m == mid and sg == sig:
                known = val
        if known is None or known == 'some':
            # found: a generic element satisfies the predicate
            for s2, emp in I.decide_empty(s.copy(), mid):
                if emp:
                    continue
                pos = I.fresh('found', 'unsigned long')
                s2.facts[T('more', mid, pos)] = ('in', frozenset([TRUE]))
                for s3, b in pred_apply(I, s2, fr, e, pred, elem_arg(I, s2, loc, mid, pos), byvalue):
                    if isinstance(b, Exc):
                        out.append((s3, b))
                    elif b:
                        s3.foralls = s3.foralls | {(mid, sig, 'some')}
                        I.ev(s3, 'found', mid, I.elem(mid, pos))
                        out.append((s3, ('cur', mid, pos)))
        if known is None or known == 'none':
            s2 = s.copy()
            s2.foralls = s2.foralls | {(mid, sig, 'none')}
            I.ev(s2, 'notfound', mid)
            if v[0] == 'seq' and v[3]:
                sts = [s2]
                for j, x in enumerate(v[3]):
                    nx = []
                    for s3 in sts:
                        for s4, b in pred_apply(I, s3, fr, e, pred, x, byvalue):
                            if isinstance(b, Exc):
                                out.append((s4, b))
                            elif b:
                                out.append((s4, ('s', j)))
                            else:
                                nx.append(s4)
                    sts = nx
                out += [(x, None) for x in sts]
            else:
                out.append((s2, None))
    return out


def dedup(I, states):
    seen = {}
    for s in states:
        seen.setdefault(I.canon(s), s)
    return list(seen.values())


def filter_seq(I, st, fr, e, loc, pred, byvalue):
    """remove elements satisfying pred; returns states with the container updated and value = 'something removed' bool"""
    v = I.read(st, loc)
    out = []
    mid = v[2]
    states = [(st, ())]
    for i in range(len(v[1])):
        nxt = []
        for s, kept in states:
            for s2, b in pred_apply(I, s, fr, e, pred, known_arg(I, s, loc, v, i), byvalue):
                if isinstance(b, Exc):
                    out.append((s2, b))
                else:
                    nxt.append((s2, kept + (() if b else (v[1][i],))))
        states = nxt
    for s, kept in states:
        if mid is None:
            s.store[loc] = ('seq', kept, None, ())
            out.append((s, C(len(v[1]) - len(kept))))
            continue
        sig = pred_sig(I, s, fr, e, pred, loc, mid, byvalue)
        f = I.typed(T('filter', mid, sig), I.ttype.get(mid, ''))
        newv = ('seq', kept, f, v[3])
        I.ev(s, 'seq', 'filter', loc, sig)
        for some in (True, False):
            s2 = s.copy()
            s2.foralls = s2.foralls | {(mid, sig, 'some' if some else 'none')}
            s2.store[loc] = newv if some else v
            out.append((s2, C(1 if some or len(kept) < len(v[1]) else 0)))
    return out


# ---------------------------------------------------------------------------- maps and sets
def lookup(I, st, k, l, v, key):
    """-> list of (st, ('hit',k,val)|None)"""
    out = []
    states = [st]
    for kk, vv in v[1]:
        nxt = []
        for s in states:
            for s2, b in I.decide_eq(s, key, kk):
                if b:
                    out.append((s2, (kk, vv)))
                else:
                    nxt.append(s2)
        states = nxt
    for s in states:
        if v[2] is None:
            out.append((s, None))
            continue
        has = T('has', v[2], I.norm(s, key))
        I.ttype[has] = 'bool'
        for b in (True, False):
            f = s.facts.get(has)
            if f and C(b) not in f[1]:
                continue
            s2 = s.copy()
            s2.facts[has] = ('in', frozenset([C(b)]))
            if b:
                s2.facts[T('empty', v[2])] = ('in', frozenset([FALSE]))
                val = I.opaque_of_type(T('mapat', v[2], I.norm(s, key)), I.mapval_type(v[2])) if k == 'map' else NULL
                out.append((s2, (key, val)))
            else:
                out.append((s2, None))
    return out


def map_set(I, s, l, key, val, k='map'):
    v = I.read(s, l)
    ents = tuple((kk, vv) for kk, vv in v[1] if kk != key) + ((key, val),)
    s.store[l] = (v[0], ents, v[2])


def map_method(I, e, st, fr, k, meth, l, v):
    ta = split_targs(strip_t(e['obj'].get('t', '')))
    vt = ta[1] if k == 'map' and len(ta) > 1 else ''

    def conv(s, x):
        return I.val(s, x)
    if meth in ('find', 'count', 'contains', 'at', 'equal_range', 'lower_bound', 'upper_bound'):
        def go(s, a):
            key = conv(s, a[0])
            out = []
            if meth in ('lower_bound', 'upper_bound'):
                m = I.read(s, l)
                keys = [I.norm(s, kk) for kk, _ in m[1]]
                key1 = I.norm(s, key)
                if m[2] is None and all(x[0] in 'ce' and type(x[-1]) in (int, str) and type(x[-1]) is type(key1[-1]) for x in keys + [key1]):
                    ge = [(x[-1], i) for i, x in enumerate(keys) if x[-1] > key1[-1] or (meth == 'lower_bound' and x[-1] == key1[-1])]
                    if not ge:
                        return [(s, ('it', l, ('end',)))]
                    kk, vv = m[1][min(ge)[1]]
                    return [(s, ('it', l, ('key', kk, vv)))]
                if m[2] is None and all(x[0] in 'ce' and type(x[-1]) is int for x in keys) and key1[0] in 'at':
                    # a symbolic key: one path per known key, and one for every other key, which is left open
                    for s2, hit in lookup(I, s, k, l, m, key):
                        if hit and meth == 'lower_bound':
                            out.append((s2, ('it', l, ('key', hit[0], hit[1]))))
                        else:
                            I.taint(s2, 'map ' + meth)
                            out.append((s2, I.fresh('it')))
                    return out
            for s2, hit in lookup(I, s, k, l, I.read(s, l), key):
                if meth == 'find':
                    out.append((s2, ('it', l, ('key', hit[0], hit[1])) if hit else ('it', l, ('end',))))
                elif meth in ('count', 'contains'):
                    out.append((s2, (C(1) if meth == 'count' else TRUE) if hit else (C(0) if meth == 'count' else FALSE)))
                elif meth == 'at':
                    if hit is None:
                        I.ev(s2, 'throw', 'std::out_of_range')
                        out.append((s2, Exc(I.fresh('oor'), 'std::out_of_range')))
                    else:
                        out.append((s2, mapref(I, s2, l, hit, vt)))
                else:
                    I.taint(s2, 'map ' + meth)
                    out.append((s2, I.fresh('it')))
            return out
        return with_args(I, e, st, fr, go)
    if meth == 'operator[]':
        def go(s, a):
            key = conv(s, a[0])
            out = []
            for s2, hit in lookup(I, s, k, l, I.read(s, l), key):
                if hit is None:
                    d = I.default(vt, 'mapval')
                    if d is None:
                        d = I.newobj(strip_t(vt))
                        I.default_fields(s2, d, strip_t(vt))
                    elif classify(vt) in ('int', 'bool', 'float', 'ptr', 'fptr'):
                        d = {'int': C(0), 'bool': FALSE, 'float': C(0.0)}.get(classify(vt), NULL)
                    I.ev(s2, 'map', 'create', l, key)
                    map_set(I, s2, l, key, d)
                    out.append((s2, mapref(I, s2, l, (key, d), vt)))
                else:
                    if not any(kk == hit[0] for kk, _ in I.read(s2, l)[1]):
                        map_set(I, s2, l, hit[0], hit[1])
                    out.append((s2, mapref(I, s2, l, hit, vt)))
            return out
        return with_args(I, e, st, fr, go)
    if meth in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        def go(s, a):
            vals = [conv(s, x) for x in a]
            vals = [x for x in vals]
            if vals and vals[0][0] == 'it' and len(vals) == 2 and vals[1][0] == 'it':
                r = I.range_value(s, vals[0], vals[1])
                if r is not None and r[0] == 'seq' and r[2] is None:
                    for x in r[1]:
                        map_set(I, s, l, x, NULL) if k == 'set' else None
                else:
                    I.taint(s, 'range insert')
                    I.ev(s, 'map', 'insert_range', l, r if r is not None else ('?',))
                    s.store[l] = I.opaque_of_type(I.fresh('ins', strip_t(e['obj'].get('t', ''))), e['obj'].get('t', ''))
                return [(s, C(None))]
            if vals and vals[0][0] == 'it':
                vals = vals[1:]
            if k == 'set':
                key, val = vals[0], NULL
            elif len(vals) == 1:
                x = vals[0]
                if x[0] == 'tup':
                    key, val = x[1][0], x[1][1]
                else:
                    key, val = I.part(s, x, 0), I.part(s, x, 1)
            elif len(vals) >= 2:
                key, val = vals[0], vals[1]
            else:
                key, val = I.fresh('key'), NULL
            key = I.norm(s, key)
            if k == 'map' and classify(vt) == 'smart' and len(a) == 2 and a[1][0] == 'ref':
                s.store[I.canon_loc(s, a[1][1])] = NULL
            if k == 'map':
                val = I.copyval(s, val, vt)
            s.temps = tuple(y for y in s.temps if y != val)
            out = []
            for s2, hit in lookup(I, s, k, l, I.read(s, l), key):
                if hit is None or meth == 'insert_or_assign':
                    map_set(I, s2, l, key, val)
                    I.ev(s2, 'map', 'insert', l, key, val)
                    out.append((s2, ('tup', (('it', l, ('key', key, val)), C(hit is None)))))
                else:
                    out.append((s2, ('tup', (('it', l, ('key', hit[0], hit[1])), FALSE))))
            return out
        return with_args(I, e, st, fr, go)
    if meth == 'erase':
        def go(s, a):
            x = conv(s, a[0])
            if x[0] == 'it':
                if x[2][0] == 'key':
                    erase_key(I, s, l, x[2][1])
                    return [(s, ('it', l, ('end',)))]
                if x[2][0] == 'end' and len(a) == 1:
                    return [(s, I.ub(s, fr, e, 'erase(end())'))]
                I.taint(s, 'erase by iterator')
                I.ev(s, 'map', 'erase', l, ('?',))
                s.store[l] = I.opaque_of_type(I.fresh('erased', strip_t(e['obj'].get('t', ''))), e['obj'].get('t', ''))
                return [(s, ('it', l, ('end',)))]
            out = []
            for s2, hit in lookup(I, s, k, l, I.read(s, l), x):
                if hit:
                    erase_key(I, s2, l, hit[0])
                out.append((s2, C(1 if hit else 0)))
            return out
        return with_args(I, e, st, fr, go)
    I.taint(st, 'map method ' + meth)
    return with_args(I, e, st, fr, lambda s, a: I.opaque_call(e, s, fr, e['n'], v, a))


def erase_key(I, s, l, key):
    v = I.read(s, l)
    I.ev(s, 'map', 'erase', l, key)
    ents = tuple((kk, vv) for kk, vv in v[1] if kk != key)
    base = v[2]
    if base is not None:
        nb = I.typed(T('minus', base, key), I.ttype.get(base, ''))
        has = T('has', nb, key)
        I.ttype[has] = 'bool'
        s.facts[has] = ('in', frozenset([FALSE]))
        # facts about other keys carry over
        for t, f in list(s.facts.items()):
            if t[0] == 't' and t[1] == 'has' and t[2] == base and t[3] != key:
                s.facts[T('has', nb, t[3])] = f
        base = nb
    s.store[l] = (v[0], ents, base)


def mapref(I, s, l, hit, vt):
    if classify(vt) == 'cls' and hit[1][0] in ('o', 'a', 't') and not I.p.enums.get(strip_t(vt)):
        return hit[1]
    return ('ref', ('mapval', l, hit[0]))


# ---------------------------------------------------------------------------- strings
def str_method(I, e, st, fr, meth, l, v):
    v = I.norm(st, v)
    rt = strip_t(e.get('t', ''))

    def go(s, a):
        vals = [I.norm(s, I.val(s, x)) for x in a]
        if meth == 'empty':
            return [(s, T('eq', v, C('')))]
        if meth in ('c_str', 'data', 'str'):
            return [(s, v)]
        if meth in ('size', 'length'):
            if v[0] == 'c' and isinstance(v[1], str):
                return [(s, C(len(v[1])))]
            return [(s, I.typed(T('len', v), 'unsigned long'))]
        if meth in ('operator=', 'assign'):
            nv = vals[0]
            if nv[0] == 'c' and isinstance(nv[1], int):
                nv = C(chr(nv[1]))
            if e.get('asg') == 'move' and a[0][0] == 'ref':
                sl = I.canon_loc(s, a[0][1])
            I.write(s, l, nv)
            return [(s, ('ref', l))]
        if meth in ('operator+=', 'append', 'push_back'):
            nv = I.cat(v, vals[0])
            I.write(s, l, nv)
            return [(s, ('ref', l))]
        if meth == 'clear':
            I.write(s, l, C(''))
            return [(s, C(None))]
        if meth == 'compare' and len(vals) == 1:
            return [(s, I.typed(T('strcmp', v, vals[0]), 'int'))]
        if meth in ('begin', 'end', 'cbegin', 'cend'):
            return [(s, I.it_begin(s, l) if 'begin' in meth else ('it', l, ('end',)))]
        if v[0] == 'c' and isinstance(v[1], str) and all(x[0] == 'c' for x in vals):
            r = const_str(meth, v[1], [x[1] for x in vals])
            if r is not None:
                return [(s, C(r))]
        if meth in ('operator[]', 'at', 'front', 'back'):
            t = ('tmp', I.tick())
            s.store[t] = I.typed(T('char:' + meth, v, *vals), 'char')
            return [(s, ('ref', t))]
        if meth in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of', 'substr', 'compare',
                    'starts_with', 'ends_with'):
            return [(s, I.typed(T('str:' + meth, v, *vals), rt))]
        I.taint(s, 'string method ' + meth)
        return [(s, I.typed(T('str:' + meth, v, *vals), rt))]
    return with_args(I, e, st, fr, go)


def const_str(meth, v, a):
    npos = 18446744073709551615
    try:
        if meth == 'substr':
            p = a[0] if a else 0
            n = a[1] if len(a) > 1 else npos
            return v[p:] if n >= npos else v[p:p + n]
        if meth == 'find':
            r = v.find(a[0] if isinstance(a[0], str) else chr(a[0]), a[1] if len(a) > 1 else 0)
            return npos if r < 0 else r
        if meth.startswith('find_') and a:
            cs = a[0] if isinstance(a[0], str) else chr(a[0])
            rng = range(a[1] if len(a) > 1 else 0, len(v)) if 'first' in meth else range(min(a[1] if len(a) > 1 else npos, len(v) - 1), -1, -1)
            return next((i for i in rng if (v[i] in cs) != ('_not_' in meth)), npos)
        if meth == 'rfind':
            x = a[0] if isinstance(a[0], str) else chr(a[0])
            r = v.rfind(x, 0, min(a[1] if len(a) > 1 else npos, len(v)) + len(x))
            return npos if r < 0 else r
        if meth == 'starts_with':
            return v.startswith(a[0] if isinstance(a[0], str) else chr(a[0]))
        if meth == 'ends_with':
            return v.endswith(a[0] if isinstance(a[0], str) else chr(a[0]))
        if meth in ('operator[]', 'at'):
            return ord(v[a[0]]) if a[0] < len(v) else 0
        if meth == 'front':
            return ord(v[0])
        if meth == 'back':
            return ord(v[-1])
        if meth == 'compare' and len(a) == 1:
            return (v > a[0]) - (v < a[0])
    except (IndexError, TypeError):
        pass
    return None


# ---------------------------------------------------------------------------- smart pointers, std::function, optional
def handle_method(I, e, st, fr, head, meth):
    obj = e['obj']
    out = []
    for s, l in I.lv(obj, st, fr):
        if isinstance(l, Exc):
            out.append((s, l))
            continue
        v = l[1] if l[0] == 'self' else I.read(s, l, obj.get('t', ''))
        if v[0] == 'ref' and classify(obj.get('t', '')) == 'ptr':
            l = I.canon_loc(s, v[1])
            v = I.read(s, l)
        v = I.norm(s, v)
        if meth in MUTATORS:
            I.mark_write(s, fr, obj)
        out += handle1(I, e, s, fr, head, meth, l, v)
    return out


def handle1(I, e, st, fr, head, meth, l, v):
    if meth in ('get', 'operator->', 'lock', 'operator*', 'value'):
        if v[0] == 'some':
            t = ('tmp', I.tick())
            st.store[t] = v[1]
            return [(st, ('ref', t))] if v[1][0] not in ('o',) else [(st, v[1])]
        if meth in ('operator->', 'operator*') and v == NULL:
            return [(st, I.ub(st, fr, e, 'null dereference'))]
        if meth == 'operator*' and classify(e.get('t', '')) != 'cls':
            return [(s, x if isinstance(x, Exc) else ('ref', x)) for s, x in I.deref(st, v, e, fr)]
        return [(st, v)]
    if meth in ('operator bool', 'has_value'):
        return [(st, T('not', T('eq', v, NULL)))]
    if meth == 'operator()':
        return with_args(I, e, st, fr, lambda s, a: I.apply(s, v, a, fr, e))
    if meth in ('reset', 'operator='):
        def go(s, a):
            nv = I.val(s, a[0]) if a else NULL
            if nv[0] == 'c' and nv[1] is None or nv == ('seq', (), None, ()):
                nv = NULL
            if e.get('asg') == 'move' and a and a[0][0] == 'ref' and I.canon_loc(s, a[0][1]) != l and meth == 'operator=':
                s.store[I.canon_loc(s, a[0][1])] = NULL
            elif head == 'std::unique_ptr' and a and a[0][0] == 'ref' and I.canon_loc(s, a[0][1]) != l and meth == 'operator=':
                s.store[I.canon_loc(s, a[0][1])] = NULL
            s.temps = tuple(y for y in s.temps if y != nv)
            old = v
            res = [(s, None)]
            gone = 'unique_ptr' in head and old != NULL and old != nv
            if 'shared_ptr' in head:
                if e.get('asg') == 'copy' and a and a[0][0] == 'ref' and nv != old:
                    I.own(s, nv, True)
                elif meth == 'reset' and a or a and a[0][0] != 'ref' and s.store.get(('owners', nv)) is None:
                    I.own(s, nv, False)
                gone = old[0] == 'o' and old != nv and I.last_owner(s, old)
            if gone and not (old[0] == 'o' and old[2] in I.p.records):
                I.ev(s, 'destroy', old)
                gone = False
            if classify(e['obj'].get('t', '')) == 'opt' and nv != NULL and nv[0] != 'some':
                nv = ('some', nv)
            I.write(s, l, nv)
            I.ev(s, 'handle', meth, l, nv)
            if gone:
                I.ev(s, 'destroy', old)
                return [(s2, x if x is not None else ('ref', l)) for s2, x in I.destroy(s, old)]
            return [(s, ('ref', l))]
        return with_args(I, e, st, fr, go)
    if meth == 'release':
        I.write(st, l, NULL)
        return [(st, v)]
    if meth == 'swap':
        def go(s, a):
            if a[0][0] == 'ref':
                o = I.canon_loc(s, a[0][1])
                x, y = I.read(s, o), I.read(s, l)
                I.write(s, l, x)
                I.write(s, o, y)
            return [(s, C(None))]
        return with_args(I, e, st, fr, go)
    if meth == 'emplace':
        def go(s, a):
            nv = ('some', I.val(s, a[0])) if a else ('some', NULL)
            I.write(s, l, nv)
            return [(s, nv[1])]
        return with_args(I, e, st, fr, go)
    if meth == 'value_or':
        def go(s, a):
            out = []
            for s2, b in I.decide_eq(s, v, NULL):
                out.append((s2, I.val(s2, a[0]) if b else (v[1] if v[0] == 'some' else v)))
            return out
        return with_args(I, e, st, fr, go)
    if meth in ('use_count', 'expired', 'target_type', 'get_deleter'):
        return [(st, I.fresh(meth, e.get('t', '')))]
    I.taint(st, 'handle method ' + meth)
    return with_args(I, e, st, fr, lambda s, a: I.opaque_call(e, s, fr, e['n'], v, a))


# ---------------------------------------------------------------------------- iterators
def iter_method(I, e, st, fr, meth):
    out = []
    for s, l in I.lv(e['obj'], st, fr):
        if isinstance(l, Exc):
            out.append((s, l))
            continue
        v = I.read(s, l)
        if v[0] == 'ref':
            l = I.canon_loc(s, v[1])
            v = I.read(s, l)
        if v[0] != 'it':
            I.taint(s, 'opaque iterator')
            if meth in ('operator*', 'operator->'):
                t = ('tmp', I.tick())
                s.store[t] = I.opaque_of_type(I.typed(T('deref', v), strip_t(e.get('t', ''))), e.get('t', 'int'))
                x = s.store[t]
                out.append((s, x if classify(e.get('t', '')) == 'cls' else ('ref', t)))
            else:
                out.append((s, I.fresh('it', e.get('t', ''))))
            continue
        if meth in ('operator*', 'operator->'):
            for s2, x in I.it_deref(s, v, e, fr):
                if isinstance(x, Exc):
                    out.append((s2, x))
                elif x[0] == 'self':
                    out.append((s2, x[1]))
                else:
                    out.append((s2, ('ref', x)))
        elif meth in ('operator++', 'operator--'):
            if meth == 'operator--':
                c = I.read(s, v[1])
                if v[2][0] == 'i' and v[2][1] > 0:
                    nv = ('it', v[1], ('i', v[2][1] - 1))
                else:
                    I.taint(s, 'iterator decrement')
                    nv = v
            else:
                nv = I.it_next(s, v)
            s.store[l] = nv
            out.append((s, v if e['a'] else ('ref', l)))
        elif meth == 'operator=':
            def go(s2, a, l=l):
                s2.store[l] = I.val(s2, a[0])
                return [(s2, ('ref', l))]
            out += with_args(I, e, s, fr, go)
        elif meth in ('operator+', 'operator+='):
            def go(s2, a, v=v, l=l):
                n = I.norm(s2, I.val(s2, a[0]))
                nv = I.it_next(s2, v, n[1]) if n[0] == 'c' and n[1] > 0 else I.it_next(s2, v, n) if n[0] != 'c' else v
                if meth == 'operator+=':
                    s2.store[l] = nv
                return [(s2, nv)]
            out += with_args(I, e, s, fr, go)
        elif meth in ('operator-',):
            def go(s2, a, v=v):
                b = I.val(s2, a[0])
                r = I.it_pos(v, b) if hasattr(I, 'it_pos') else None
                if b[0] == 'it' and v[2][0] == 'i' and b[2][0] == 'i':
                    return [(s2, C(v[2][1] - b[2][1]))]
                if b[0] == 'it' and v[2][0] == 'cur' and b[2][0] == 'cur' and b[2][2] == C(0):
                    return [(s2, v[2][2])]
                return [(s2, I.typed(T('itdiff', v, b), 'long'))]
            out += with_args(I, e, s, fr, go)
        elif meth in ('operator==', 'operator!='):
            def go(s2, a, v=v):
                b = I.val(s2, a[0])
                return [(s3, C(r == (meth == 'operator=='))) for s3, r in I.it_eq(s2, v, b)]
            out += with_args(I, e, s, fr, go)
        else:
            I.taint(s, 'iterator method ' + meth)
            out.append((s, I.fresh('it')))
    return out


# ---------------------------------------------------------------------------- synchronisation
def sync_method(I, e, st, fr, head, meth, k):
    obj = e['obj']
    out = []
    for s, l in I.lv(obj, st, fr):
        if isinstance(l, Exc):
            out.append((s, l))
            continue
        if k == 'mutex':
            if meth == 'lock':
                I.lock(s, l, fr, e)
                out.append((s, C(None)))
            elif meth == 'unlock':
                I.unlock(s, l)
                out.append((s, C(None)))
            else:
                s2 = s.copy()
                I.lock(s2, l, fr, e)
                out += [(s2, TRUE), (s, FALSE)]
            continue
        if k == 'lock':
            o = l[1] if l[0] == 'self' else I.read(s, l)
            if o[0] == 'o' and o[2] == 'lock':
                m = s.store.get(('fld', o, 'm'))
                if meth == 'lock':
                    I.lock(s, m, fr, e)
                    s.store[('fld', o, 'owns')] = TRUE
                    out.append((s, C(None)))
                elif meth in ('unlock',):
                    I.unlock(s, m)
                    s.store[('fld', o, 'owns')] = FALSE
                    out.append((s, C(None)))
                elif meth in ('owns_lock', 'operator bool'):
                    out.append((s, s.store.get(('fld', o, 'owns'), TRUE)))
                else:
                    I.taint(s, 'lock method ' + meth)
                    out.append((s, C(None)))
            else:
                I.taint(s, 'opaque lock')
                out.append((s, C(None)))
            continue
        if 'condition_variable' in head:
            out += cv_method(I, e, s, fr, meth, l)
            continue
        if k == 'atomic' or 'atomic' in head:
            out += atomic_method(I, e, s, fr, meth, l)
            continue
        # futures, promises, threads
        v = I.read(s, l, obj.get('t', '')) if l[0] != 'self' else l[1]
        out += future_method(I, e, s, fr, meth, l, v)
    return out


def future_method(I, e, st, fr, meth, l, v):
    def go(s, a):
        vv = I.norm(s, v)
        if meth == 'operator=':
            nv = I.val(s, a[0])
            if vv != NULL:
                I.ev(s, 'join', vv)
            s.temps = tuple(y for y in s.temps if y != nv)
            if a[0][0] == 'ref' and I.canon_loc(s, a[0][1]) != l:
                s.store[I.canon_loc(s, a[0][1])] = NULL
            I.write(s, l, nv)
            return [(s, ('ref', l))]
        if meth in ('valid', 'joinable'):
            return [(s, T('not', T('eq', vv, NULL)))]
        if meth in ('wait', 'get', 'join'):
            I.ev(s, 'join', vv)
            if I.cfg.sequential:
                h = I.cfg.call_hook(I, s, fr, e, 'thread:join', vv, [])
                if h is not None:
                    return h
            s.store[('fld', vv, 'ready')] = TRUE
            if meth == 'get':
                return [(s, I.opaque_of_type(I.fresh('futval', strip_t(e.get('t', ''))), e.get('t', 'int')))]
            return [(s, C(None))]
        if meth in ('wait_for', 'wait_until') and I.cfg.run_async:
            res = []
            who = s.store.get(('fld', vv, 'who'), C(None))
            for ready in ([True] if s.store.get(('fld', vv, 'ready')) else [True, False]):
                s2 = s.copy()
                if not s.store.get(('fld', vv, 'ready')):
                    I.ev(s2, 'drv', 'Ready', (who,), C(ready))
                if ready:
                    s2.store[('fld', vv, 'ready')] = TRUE
                res.append((s2, ('e', 'std::future_status::' + ('ready' if ready else 'timeout'), 0 if ready else 1)))
            return res
        if meth in ('wait_for', 'wait_until'):
            r = I.fresh('wait_for', strip_t(e.get('t', 'int')))
            I.ev(s, 'poll', vv, r)
            return [(s, r)]
        return I.opaque_call(e, s, fr, e['n'], vv, a)
    return with_args(I, e, st, fr, go)


def atomic_method(I, e, st, fr, meth, l):
    I_t = strip_t(e['obj'].get('t', ''))
    vt = split_targs(I_t)
    vt = vt[0] if vt else 'int'

    def go(s, a):
        if meth in ('load',) or meth.startswith('operator ') and meth != 'operator =' or meth == 'operator bool':
            cur = s.store.get(I.canon_loc(s, l))
            if cur is not None and cur[0] in 'ce':
                v = cur
            else:
                v = I.fresh('atomic:' + str(l[2] if len(l) > 2 else ''), vt)
                I.ev(s, 'aload', l, v)
            return [(s, v)]
        if meth in ('store', 'operator='):
            nv = I.val(s, a[0])
            I.mark_write(s, fr, e['obj'])
            s.store[I.canon_loc(s, l)] = nv
            I.ev(s, 'set', l, nv)
            return [(s, nv)]
        if meth == 'exchange':
            nv = I.val(s, a[0])
            old = s.store.get(I.canon_loc(s, l))
            v = old if old is not None and old[0] in 'ce' else I.fresh('atomic', vt)
            s.store[I.canon_loc(s, l)] = nv
            I.ev(s, 'set', l, nv)
            return [(s, v)]
        I.taint(s, 'atomic ' + meth)
        return [(s, I.fresh('atomic', vt))]
    return with_args(I, e, st, fr, go)


def cv_method(I, e, st, fr, meth, l):
    if meth in ('notify_one', 'notify_all'):
        I.ev(st, 'notify', meth, I.canon_loc(st, l), tuple(st.locks))
        return [(st, C(None))]
    if meth not in ('wait', 'wait_for', 'wait_until'):
        I.taint(st, 'cv ' + meth)
        return [(st, C(None))]
    out = []
    lockarg = e['a'][0]
    rest = e['a'][1:]
    for s, lk in I.eval(lockarg, st, fr):
        if isinstance(lk, Exc):
            out.append((s, lk))
            continue
        m = s.store.get(('fld', lk, 'm')) if lk[0] == 'o' else None
        for s2, args in I.eval_args(rest, s, fr, None):
            if isinstance(args, Exc):
                out.append((s2, args))
                continue
            timed = meth != 'wait'
            pred = None
            if timed:
                pred = args[1] if len(args) > 1 else None
            else:
                pred = args[0] if args else None
            if m is not None and m not in s2.locks:
                I.ev(s2, 'wait-unlocked', l)
            ke = frozenset(t for t, f in s2.facts.items() if t[0] == 't' and t[1] == 'empty' and f == ('in', frozenset([TRUE])))
            I.ev(s2, 'wait', l, m if m is not None else C(None), C(pred is not None), C(timed), ke)
            s2.relock = True
            hook = I.cfg.call_hook(I, s2, fr, e, 'cv:' + meth, ('ref', l), [C(None) if pred is None else pred]) if I.cfg.sequential else None
            if hook is not None:
                out += hook
                continue
            if m is not None:
                I.havoc_shared(s2, m)
                havoc_scalars(I, s2, m)
            if pred is None:
                r = I.fresh('cvstatus', strip_t(e.get('t', ''))) if timed else C(None)
                out.append((s2, r))
                continue
            for s3, b in pred_apply_noarg(I, s2, fr, e, pred):
                if isinstance(b, Exc):
                    out.append((s3, b))
                elif b:
                    out.append((s3, TRUE if timed else C(None)))
                elif timed:
                    out.append((s3, FALSE))
    return out


def havoc_scalars(I, st, m):
    if m[0] != 'fld' or I.cfg.sequential:
        return
    for k in list(st.store):
        if k[0] == 'fld' and k[1] == m[1]:
            v = st.store[k]
            f = I.p.field(m[1][2], k[2]) if m[1][0] == 'o' else None
            if f and classify(f['t']) in ('bool', 'int', 'smart') and not f['t'].startswith('const '):
                st.store[k] = I.fresh('shared:' + k[2], strip_t(f['t']))


def pred_apply_noarg(I, st, fr, e, pred):
    out = []
    for s, r in I.apply(st, pred, [], fr, {'t': 'bool', 'l': e['l']}):
        if isinstance(r, Exc):
            out.append((s, r))
        else:
            out += I.decide(s, I.val(s, r))
    return out


# ---------------------------------------------------------------------------- free functions
def free_call(I, e, st, fr, name):
    _, fn = base_name(name)
    if '::operator' in name:
        fn = name[name.index('::operator') + 2:]
    args = e['a']
    if fn == 'move' and len(args) == 1:
        out = []
        for s, l in I.lv(args[0], st, fr):
            if isinstance(l, Exc):
                out.append((s, l))
            elif l[0] == 'self':
                out.append((s, l[1]))
            else:
                v = I.read(s, l)
                out.append((s, v if v[0] == 'o' and v[2] not in ('lock',) and classify(e.get('t', '')) == 'cls' else ('ref', I.canon_loc(s, l))))
        return out
    if name in NOOP:
        out = []
        for s, l in I.lv(args[0], st, fr):
            if isinstance(l, Exc):
                out.append((s, l))
            else:
                l = l if l[0] == 'self' else I.canon_loc(s, l)
                v = s.store.get(l) if fn == 'addressof' and l[0] != 'self' and classify(args[0].get('t', '')) == 'cls' else None
                if v is not None and v[0] in ('o', 'a', 't') and not I.p.enums.get(strip_t(args[0].get('t', ''))):
                    out.append((s, v))
                else:
                    out.append((s, l[1] if l[0] == 'self' else ('ref', l)))
        return out
    if fn in ('operator==', 'operator!=', 'operator<', 'operator<=', 'operator>', 'operator>='):
        def go(s, a):
            x, y = I.val(s, a[0]), I.val(s, a[1])
            if x[0] == 'it' and y[0] == 'it':
                return [(s2, C(r == (fn == 'operator=='))) for s2, r in I.it_eq(s, x, y)]
            if x[0] == 'it' or y[0] == 'it':
                I.taint(s, 'iterator comparison')
            if fn in ('operator==', 'operator!='):
                if x[0] == 'tup' and y[0] == 'tup' and len(x[1]) == len(y[1]):
                    t = TRUE
                    for p, q in zip(x[1], y[1]):
                        t = T('and', t, T('eq', p, q))
                else:
                    t = T('eq', x, y)
                return [(s, t if fn == 'operator==' else T('not', t))]
            if 'chrono' in name:
                I.ev(s, 'timecmp', x, y)
            return [(s, T('cmp', I.CMP[fn[8:]], x, y))]
        return with_args(I, e, st, fr, go)
    if fn == 'operator-' and 'chrono' in name:
        return with_args(I, e, st, fr, lambda s, a: [(s, I.typed(T('-', *[I.val(s, x) for x in a]), strip_t(e.get('t', ''))))])
    if fn == 'operator+':
        def go(s, a):
            x, y = I.norm(s, I.val(s, a[0])), I.norm(s, I.val(s, a[1]))
            if classify(e.get('t', '')) == 'str':
                return [(s, I.cat(x, y))]
            return [(s, I.arith(s, '+', x, y, e.get('t', '')))]
        return with_args(I, e, st, fr, go)
    if fn in ('min', 'max') and len(args) == 2:
        def go(s, a):
            x, y = I.norm(s, I.val(s, a[0])), I.norm(s, I.val(s, a[1]))
            nx, ny = I.numval(x), I.numval(y)
            if nx is not None and ny is not None:
                return [(s, x if (nx <= ny) == (fn == 'min') else y)]
            return [(s, I.typed(T(fn, x, y), strip_t(e.get('t', ''))))]
        return with_args(I, e, st, fr, go)
    if fn == 'swap' and len(args) == 2:
        def go(s, a):
            if a[0][0] == 'ref' and a[1][0] == 'ref':
                p, q = I.canon_loc(s, a[0][1]), I.canon_loc(s, a[1][1])
                x, y = I.read(s, p), I.read(s, q)
                I.mark_write(s, fr, args[0])
                I.mark_write(s, fr, args[1])
                I.write(s, p, y)
                I.write(s, q, x)
                I.ev(s, 'swap', p, q)
            else:
                I.taint(s, 'swap')
            return [(s, C(None))]
        return with_args(I, e, st, fr, go)
    if fn == 'exchange' and len(args) == 2:
        def go(s, a):
            if a[0][0] == 'ref':
                l = I.canon_loc(s, a[0][1])
                old = I.read(s, l)
                I.mark_write(s, fr, args[0])
                nv = I.val(s, a[1])
                t = classify(args[0].get('t', ''))
                I.write(s, l, nv)
                return [(s, old)]
            I.taint(s, 'exchange')
            return [(s, I.val(s, a[0]))]
        return with_args(I, e, st, fr, go)
    if fn in ('make_unique', 'make_shared'):
        cls = strip_t(e['targs'][0])

        def go(s, a):
            if cls in I.p.records:
                hook = I.cfg.call_hook(I, s, fr, e, 'make:' + cls, None, a)
                if hook is not None:
                    return hook
                out = []
                for s2, o in construct(I, s, fr, cls, a):
                    if not isinstance(o, Exc):
                        I.ev(s2, 'new', cls, o)
                    out.append((s2, o))
                return out
            vals = tuple(I.val(s, x) for x in a)
            o = I.newobj(cls)
            s.store[('ctorargs', o)] = ('tup', vals)
            I.ev(s, 'new', cls, o)
            return [(s, o)]
        # constructor arguments bound by reference
        return with_args(I, e, st, fr, go)
    if fn in ('make_pair', 'make_tuple', 'tie', 'forward_as_tuple'):
        return with_args(I, e, st, fr, lambda s, a: [(s, ('tup', tuple(I.val(s, x) if fn not in ('tie',) else x for x in a)))])
    if fn in ('get',) and e.get('targs') and len(args) == 1:
        def go(s, a):
            try:
                i = int(e['targs'][0])
            except ValueError:
                I.taint(s, 'std::get by type')
                return [(s, I.fresh('get', e.get('t', '')))]
            if a[0][0] == 'ref':
                return [(s, ('ref', ('part', I.canon_loc(s, a[0][1]), i)))]
            return [(s, I.part(s, I.val(s, a[0]), i))]
        return with_args(I, e, st, fr, go)
    if fn == 'make_optional':
        return with_args(I, e, st, fr, lambda s, a: [(s, ('some', I.val(s, a[0])))])
    if fn == 'bind':
        def go(s, a):
            f = I.val(s, a[0])
            rest = []
            for node, x in zip(args[1:], a[1:]):
                if node['k'] == 'var' and node.get('g', '').startswith('std::placeholders'):
                    rest.append(('ph', int(node['n'][1:])))
                elif node['k'] == 'call' and node.get('n') in ('std::ref', 'std::cref'):
                    rest.append(x)
                else:
                    rest.append(I.val(s, x))
            return [(s, ('bind', f, tuple(rest)))]
        return with_args(I, e, st, fr, go)
    if fn == 'to_string':
        def go(s, a):
            v = I.norm(s, I.val(s, a[0]))
            if v[0] == 'c' and isinstance(v[1], int):
                return [(s, C(str(int(v[1]))))]
            return [(s, I.typed(T('to_string', v), 'std::basic_string<char>'))]
        return with_args(I, e, st, fr, go)
    if fn in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty') and len(args) == 1:
        def go(s, a):
            if a[0][0] != 'ref':
                I.taint(s, 'free ' + fn)
                return [(s, I.fresh(fn, e.get('t', '')))]
            l = I.canon_loc(s, a[0][1])
            if 'begin' in fn:
                return [(s, I.it_begin(s, l))]
            if 'end' in fn:
                return [(s, ('it', l, ('end',)))]
            return cont_method(I, {'t': e.get('t', ''), 'a': [], 'obj': args[0], 'n': name, 'l': e['l']}, s, fr, classify(args[0].get('t', '')), fn, l, I.read(s, l))
        return with_args(I, e, st, fr, go)
    if fn in ('next', 'prev', 'advance'):
        def go(s, a):
            it = I.val(s, a[0])
            n = I.norm(s, I.val(s, a[1])) if len(a) > 1 else C(1)
            if it[0] == 'it' and fn == 'next':
                if n == C(0):
                    return [(s, it)]
                return [(s, I.it_next(s, it, n[1] if n[0] == 'c' else n))]
            I.taint(s, fn)
            return [(s, it)]
        return with_args(I, e, st, fr, go)
    if fn == 'distance':
        def go(s, a):
            x, y = I.val(s, a[0]), I.val(s, a[1])
            r = I.range_value(s, x, y) if x[0] == 'it' and y[0] == 'it' else None
            if r is not None and r[0] == 'seq':
                return [(s, C(len(r[1])) if r[2] is None else I.typed(T('len', r[2]), 'unsigned long'))]
            if x[0] == 'it' and y[0] == 'it' and y[2][0] == 'cur' and x[2] == I.it_begin(s, x[1])[2]:
                return [(s, y[2][2])]
            if x[0] == 'it' and y[0] == 'it' and y[2][0] == 'i' and x[2] == ('i', 0):
                return [(s, C(y[2][1]))]
            return [(s, I.typed(T('distance', x, y), 'long'))]
        return with_args(I, e, st, fr, go)
    if fn in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'count_if', 'for_each', 'remove', 'remove_if',
              'transform', 'copy', 'copy_if', 'accumulate', 'sort', 'reverse', 'binary_search', 'equal', 'unique', 'max_element',
              'min_element', 'stable_sort', 'partition', 'fill', 'lower_bound'):
        return algorithm(I, e, st, fr, fn)
    if fn == 'async':
        def go(s, a):
            o = I.newobj('std::future')
            fi = 0
            lt = strip_t(args[0].get('t', ''))
            policy = C(None)
            if lt == 'std::launch':
                policy = I.val(s, a[0])
                fi = 1
            I.ev(s, 'spawn', o, I.val(s, a[fi]), policy, tuple(I.val(s, x) for x in a[fi + 1:]))
            s.temps = s.temps + (o,)
            if I.cfg.sequential:
                h = I.cfg.call_hook(I, s, fr, e, 'thread:start', o, list(a[fi:]))
                if h is not None:
                    return h
            if I.cfg.run_async:
                # the effects of the other thread as if it ran at once; when it is over stays unknown
                n0 = len(s.log)
                res = []
                for s2, r in I.apply(s, I.val(s, a[fi]), list(a[fi + 1:]), fr, e):
                    who = next((x[2][0] for x in s2.log[n0:] if x[0] == 'drv' and x[1] in ('Init', 'Tick') and x[2]), C(None))
                    s2.store[('fld', o, 'who')] = who
                    I.ev(s2, 'spawned', o, who)
                    if not isinstance(r, Exc):
                        s2.store[('fld', o, 'result')] = I.val(s2, r)
                    res.append((s2, o))
                return res
            return [(s, o)]
        return with_args(I, e, st, fr, go)
    if fn in ('back_inserter', 'inserter', 'front_inserter'):
        return with_args(I, e, st, fr, lambda s, a: [(s, ('backins', I.canon_loc(s, a[0][1]) if a[0][0] == 'ref' else ('?',)))])
    if fn == 'call_once':
        def go(s, a):
            flag = ('g', 'once', repr(I.norm(s, a[0])))
            if flag in s.store:
                return [(s, C(None))]
            I.ev(s, 'call_once')
            out = I.apply(s, I.val(s, a[1]), a[2:], fr, e)
            for s2, r in out:
                if not isinstance(r, Exc):
                    s2.store[flag] = C(True)
            return out
        return with_args(I, e, st, fr, go)
    if fn == 'operator<<' or fn == 'operator>>':
        def go(s, a):
            return stream_op(I, e, s, fr, fn, a)
        return with_args(I, e, st, fr, go)
    if fn in ('isnan', 'isfinite', 'isinf') or name in ('isnan',):
        def go(s, a):
            v = I.norm(s, I.val(s, a[0]))
            if v[0] == 'c':
                x = float(v[1])
                return [(s, C({'isnan': x != x, 'isfinite': x == x and abs(x) != float('inf'), 'isinf': abs(x) == float('inf')}[fn]))]
            if fn == 'isnan':
                I.typed(v, 'double')
                return [(s, T('cmp', frozenset('u'), v, C(0.0)))]
            return [(s, I.typed(T(fn, v), 'bool'))]
        return with_args(I, e, st, fr, go)
    if fn in ('lround', 'round', 'abs', 'fabs', 'floor', 'ceil', 'tolower', 'toupper'):
        def go(s, a):
            v = I.norm(s, I.val(s, a[0]))
            if v[0] == 'c' and len(a) == 1 and not isinstance(v[1], str):
                x = v[1]
                if fn in ('tolower', 'toupper'):
                    c = chr(x)
                    return [(s, C(ord((c.lower() if fn == 'tolower' else c.upper()) if c.isascii() else c)))]
                if x == x and abs(x) != float('inf'):
                    r = {'abs': abs, 'fabs': lambda y: float(abs(y)), 'floor': lambda y: float(math.floor(y)), 'ceil': lambda y: float(math.ceil(y)),
                         'round': lambda y: float(math.copysign(math.floor(abs(y) + 0.5), y)),
                         'lround': lambda y: int(math.copysign(math.floor(abs(y) + 0.5), y))}[fn](x)
                    if fn != 'lround' or -2 ** 63 <= r < 2 ** 63:
                        return [(s, C(r))]
                elif fn != 'lround':
                    return [(s, C(x))]
            return [(s, I.typed(T(fn, *[I.val(s, x) for x in a]), strip_t(e.get('t', ''))))]
        return with_args(I, e, st, fr, go)
    if fn in ('isnan', 'lround', 'abs', 'fabs', 'round', 'floor', 'ceil', 'stoi', 'stol', 'stod', 'stoul', 'stoull', 'tolower', 'toupper'):
        return with_args(I, e, st, fr, lambda s, a: [(s, I.typed(T(fn, *[I.val(s, x) for x in a]), strip_t(e.get('t', ''))))])
    if fn in ('sleep_for', 'sleep_until', 'yield'):
        def go(s, a):
            r = I.cfg.call_hook(I, s, fr, e, 'std::this_thread::' + fn, None, a)
            if r is not None:
                return r
            I.ev(s, 'sleep', *[I.val(s, x) for x in a])
            return [(s, C(None))]
        return with_args(I, e, st, fr, go)
    if fn in ('duration_cast', 'now', 'nanoseconds', 'time_point_cast'):
        return with_args(I, e, st, fr, lambda s, a: [(s, I.typed(T(fn, *[I.val(s, x) for x in a]), strip_t(e.get('t', ''))) if a else I.fresh(fn, strip_t(e.get('t', ''))))])
    if fn in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast'):
        return with_args(I, e, st, fr, lambda s, a: [(s, I.val(s, a[0]))])

    def go(s, a):
        if fn not in ('getline', 'getenv', 'mkdir', '__errno_location', 'dlopen', 'dlclose', 'unary_function'):
            I.taint(s, 'call ' + name)
        return I.opaque_call(e, s, fr, name, None, a)
    return with_args(I, e, st, fr, go)


def put_text(st, strm, v):
    k = ('g', 'stream', strm)
    t = st.store.get(k, C(''))
    ok = t != C(None) and v[0] == 'c' and isinstance(v[1], (str, int)) and not isinstance(v[1], bool)
    st.store[k] = C(t[1] + str(v[1])) if ok else C(None)


def stream_op(I, e, st, fr, fn, a):
    strm = I.val(st, a[0])
    I.ev(st, 'stream', fn, strm, tuple(I.val(st, x) for x in a[1:]))
    if fn == 'operator<<':
        put_text(st, strm, I.norm(st, I.val(st, a[1])))
    else:
        st.store[('g', 'stream', strm)] = C(None)
    if fn == 'operator>>':
        for x in a[1:]:
            if x[0] == 'ref':
                old = I.read(st, x[1])
                t = I.ttype.get(old, 'int')
                I.write(st, x[1], I.fresh('parsed', t))
    return [(st, a[0])]


def algorithm(I, e, st, fr, fn):
    nodes = e['a']

    def go(s, a):
        first, last = I.val(s, a[0]), I.val(s, a[1])
        if first[0] != 'it' or last[0] != 'it':
            I.taint(s, 'algorithm %s over opaque range' % fn)
            return I.opaque_call(e, s, fr, 'std::' + fn, None, a)
        loc = first[1]
        cv = I.read(s, loc)
        rng = I.range_value(s, first, last)
        whole = rng is not None and rng == cv
        if rng is None:
            I.taint(s, 'partial range in ' + fn)
            rng = cv
        if not whole:
            l2 = ('tmp', I.tick())
            s.store[l2] = rng
            loc2 = l2
        else:
            loc2 = loc
        if fn in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'binary_search'):
            byval = fn in ('find', 'binary_search')
            pred = a[2]
            if not byval:
                pred = I.val(s, pred)
            negate = fn in ('all_of', 'find_if_not')
            out = []
            if negate:
                pred = ('negp', pred)
            for s2, r in search(I, s, fr, e, loc2, rng, NegPred(pred) if False else pred, byval):
                if isinstance(r, Exc):
                    out.append((s2, r))
                elif fn.startswith('find'):
                    if r is None:
                        out.append((s2, ('it', loc, ('end',)) if last[2][0] == 'end' else last))
                    elif r[0] == 'i' and not whole and first[2][0] == 'i':
                        out.append((s2, ('it', loc, ('i', r[1] + first[2][1]))))
                    else:
                        out.append((s2, ('it', loc, r)))
                else:
                    hit = r is not None
                    out.append((s2, C(hit if fn in ('any_of', 'binary_search') else not hit)))
            return out
        if fn == 'transform' and len(a) == 4 and whole:
            d = I.val(s, a[2])
            text = rng[0] == 'c' and isinstance(rng[1], str)
            if d == first and (text or rng[0] == 'seq' and rng[2] is None and not rng[3]):
                work = [(s, [])]
                bad = []
                for el in ([C(ord(c)) for c in rng[1]] if text else rng[1]):
                    nxt = []
                    for s1, done in work:
                        for s2, r in I.apply(s1, I.val(s1, a[3]), [el], fr, {'t': '', 'l': e['l'], 'rt': 'int'}):
                            if isinstance(r, Exc):
                                bad.append((s2, r))
                            else:
                                x = I.norm(s2, I.val(s2, r))
                                s2.temps = tuple(y for y in s2.temps if y != x)
                                nxt.append((s2, done + [x]))
                    work = nxt
                for s1, done in work:
                    if not text:
                        v = ('seq', tuple(done), None, ())
                    elif all(x[0] == 'c' for x in done):
                        v = C(''.join(chr(x[1] & 255) if isinstance(x[1], int) else x[1] for x in done))
                    else:
                        v = I.fresh('transformed', 'std::basic_string<char>')
                    I.write(s1, loc, v)
                return bad + [(s1, ('it', loc, ('end',))) for s1, _ in work]
        if fn in ('count', 'count_if', 'for_each', 'transform', 'copy', 'copy_if', 'accumulate'):
            return traverse(I, e, s, fr, fn, loc2, rng, a)
        if fn in ('remove', 'remove_if'):
            pred = a[2] if fn == 'remove' else I.val(s, a[2])
            return remove_alg(I, e, s, fr, loc, rng, pred, fn == 'remove')
        if fn in ('sort', 'stable_sort', 'reverse'):
            if cv[0] == 'seq':
                I.ev(s, 'seq', fn, loc)
                t = I.ttype.get(cv[2], '') if cv[2] else ''
                if cv[2] is None and fn == 'reverse':
                    s.store[loc] = ('seq', tuple(reversed(cv[1])), None, ())
                else:
                    s.store[loc] = ('seq', (), I.typed(T(fn, cv), t), ())
            return [(s, C(None))]
        I.taint(s, 'algorithm ' + fn)
        return I.opaque_call(e, s, fr, 'std::' + fn, None, a)
    return with_args(I, e, st, fr, go)


def NegPred(p):
    return p


def leftover_obj(I, s, cls):
    o = I.newobj(cls)
    for f in I.p.fields(cls):
        s.store[('fld', o, f['n'])] = I.opaque_of_type(I.fresh('leftover', strip_t(f['t'])), f['t'])
    return o


def remove_alg(I, e, st, fr, loc, v, pred, byval):
    """erase-remove: yields the iterator ('removed', newvalue, sig) or end"""
    out = []
    mid = v[2]
    states = [(st, ())]
    for i in range(len(v[1])):
        nxt = []
        for s, kept in states:
            for s2, b in pred_apply(I, s, fr, e, pred, known_arg(I, s, loc, v, i), byval):
                if isinstance(b, Exc):
                    out.append((s2, b))
                else:
                    nxt.append((s2, kept + (() if b else (v[1][i],))))
        states = nxt
    for s, kept in states:
        removed_known = len(kept) < len(v[1])
        if mid is None:
            if removed_known:
                # what is left behind the kept elements is unspecified until it is erased
                k = 0
                ta = split_targs(strip_t(e['a'][0].get('t', ''))) if e.get('a') else []
                left = tuple(I.fresh('leftover', I.ttype.get(x, '')) if v[1][0][0] != 'o' else leftover_obj(I, s, v[1][0][2])
                             for x in v[1][len(kept):])
                s.store[loc] = ('seq', kept + left, None, v[3])
                out.append((s, ('it', loc, ('removed', ('seq', kept, None, v[3]), ('known',), left))))
            else:
                out.append((s, ('it', loc, ('end',))))
            continue
        sig = pred_sig(I, s, fr, e, pred, loc, mid, byval)
        f = I.typed(T('filter', mid, sig), I.ttype.get(mid, ''))
        for some in (True, False):
            s2 = s.copy()
            s2.foralls = s2.foralls | {(mid, sig, 'some' if some else 'none')}
            if some:
                s2.facts[T('empty', mid)] = ('in', frozenset([FALSE]))
            if some or removed_known:
                out.append((s2, ('it', loc, ('removed', ('seq', kept, f if some else mid, v[3]), sig))))
            else:
                out.append((s2, ('it', loc, ('end',))))
    return out


def traverse(I, e, st, fr, fn, loc, v, a):
    """for_each / transform / copy_if / count_if / accumulate as loops over the abstract sequence"""
    states = [(st, None)]
    out = []
    outloc = None
    if fn in ('transform', 'copy', 'copy_if'):
        d = I.val(st, a[2])
        outloc = d[1] if d[0] == 'backins' else None
        if outloc is None or outloc == ('?',):
            I.taint(st, fn + ' destination')
    func = None
    if fn in ('for_each', 'count_if'):
        func = I.val(st, a[2])
    elif fn == 'count':
        func = a[2]
    elif fn in ('transform', 'copy_if'):
        func = I.val(st, a[3])
    acc = None
    if fn == 'accumulate':
        acc = ('tmp', I.tick())
        st.store[acc] = I.val(st, a[2])
        func = I.val(st, a[3]) if len(a) > 3 else None
    cnt = None
    if fn in ('count', 'count_if'):
        cnt = ('v', -1, I.tick())
        st.store[cnt] = C(0)

    def step(s, el):
        if fn == 'for_each':
            return [(s2, r if isinstance(r, Exc) else None) for s2, r in I.apply(s, func, [el], fr, {'t': 'void', 'l': e['l']})]
        if fn in ('count', 'count_if'):
            res = []
            for s2, b in pred_apply(I, s, fr, e, func, el, fn == 'count'):
                if isinstance(b, Exc):
                    res.append((s2, b))
                    continue
                if b:
                    s2.store[cnt] = I.arith(s2, '+', s2.store[cnt], C(1), 'long')
                res.append((s2, None))
            return res
        if fn == 'transform':
            res = []
            for s2, r in I.apply(s, func, [el], fr, {'t': '', 'l': e['l'], 'rt': 'int'}):
                if isinstance(r, Exc):
                    res.append((s2, r))
                    continue
                x = I.val(s2, r)
                s2.temps = tuple(y for y in s2.temps if y != x)
                if outloc is not None and outloc != ('?',):
                    push_any(I, s2, outloc, x)
                res.append((s2, None))
            return res
        if fn in ('copy', 'copy_if'):
            res = []
            tests = [(s, True)] if fn == 'copy' else pred_apply(I, s, fr, e, func, el, False)
            for s2, b in tests:
                if isinstance(b, Exc):
                    res.append((s2, b))
                    continue
                if b and outloc is not None:
                    push_any(I, s2, outloc, I.val(s2, el))
                res.append((s2, None))
            return res
        if fn == 'accumulate':
            if func is None:
                s.store[acc] = I.arith(s, '+', I.read(s, acc), I.val(s, el), e.get('t', ''))
                return [(s, None)]
            res = []
            for s2, r in I.apply(s, func, [I.read(s, acc), el], fr, {'t': e.get('t', ''), 'l': e['l']}):
                if isinstance(r, Exc):
                    res.append((s2, r))
                else:
                    s2.store[acc] = I.val(s2, r)
                    res.append((s2, None))
            return res
    for i in range(len(I.elems_known(v))):
        nxt = []
        for s, x in states:
            I.ev(s, 'iter', ('known', i), I.elems_known(v)[i])
            for s2, r in step(s, known_arg(I, s, loc, v, i)):
                (out if r is not None else nxt).append((s2, r))
        states = nxt
    mid = v[2] if v[0] in ('seq', 'map', 'set') else None
    if mid is not None:
        nst = []
        for s, _ in states:
            base_log = s.log
            loopid = (fr.file, e['l'])
            nbase = I.n
            work = [(s, 0, None, frozenset())]
            seen = set()
            count = 0
            while work:
                s1, it, prev, star = work.pop()
                count += 1
                if count > I.cfg.max_loop:
                    raise TooComplex('algorithm loop at line %s' % e['l'])
                if it > 0:
                    s1, star = I.close_iter(s1, base_log, star, prev, it, loopid)
                key = I.canon(s1, ('h', it > 0))
                if key in seen:
                    continue
                seen.add(key)
                head = (dict(s1.store), nbase)
                pos = C(0) if it == 0 else I.fresh('pos', 'unsigned long')
                for s2, more in I.more(s1, mid, pos):
                    if not more:
                        nst.append((s2, None))
                        continue
                    for s3, r in step(s2, elem_arg(I, s2, loc, mid, pos)):
                        if r is not None:
                            out.append((s3, r))
                        else:
                            work.append((s3, it + 1, head, star))
        states = nst
    if v[0] == 'seq' and v[3]:
        for x in v[3]:
            nxt = []
            for s, _ in states:
                for s2, r in step(s, x):
                    (out if r is not None else nxt).append((s2, r))
            states = nxt
    for s, _ in states:
        if fn in ('count', 'count_if'):
            r = s.store.pop(cnt)
            out.append((s, r))
        elif fn == 'accumulate':
            out.append((s, I.read(s, acc)))
        elif fn == 'for_each':
            out.append((s, func))
        else:
            out.append((s, ('backins', outloc)))
    return out


def push_any(I, s, l, x):
    cur = I.read(s, l)
    if cur[0] == 'seq':
        seq_push(I, s, l, cur, x, True)
    elif cur[0] == 'set':
        map_set(I, s, l, x, NULL, 'set')
    elif cur[0] == 'map' and x[0] == 'tup':
        map_set(I, s, l, x[1][0], x[1][1])
    else:
        I.taint(s, 'output iterator target')
