"""Values (sup::dto::AnyValue) described by how they came about, and the operations of sup-dto on them.

Descriptors: 'EMPTY', 'held', 'user', ...; ('field', d, f); ('with', d, f, v) = d with its field f replaced by v;
('conv', d, v) = v converted to the type of d.  Every operation that may fail is decided by the environment and
appears in the trace with its operands."""
from client import *


def desc(I, st, v):
    """descriptor of a value"""
    d = any_get(I, st, v)
    if d is not None:
        return d
    v = I.norm(st, I.val(st, v))
    for _ in range(8):
        c = st.store.get(('ctorargs', v))
        if c is not None and v[0] == 'o':
            if c[1] == ():
                return 'EMPTY'
            a = tuple(I.norm(st, I.val(st, x)) for x in c[1])
            if len(a) == 1 and a[0][0] == 'c':
                return ('lit', a[0][1])
            if len(a) == 1 and any_get(I, st, a[0]) is not None:
                d = any_get(I, st, a[0])
                return ('typed', d) if 'AnyType' in (a[0][2] if a[0][0] == 'o' else I.ttype.get(a[0], '')) else d
            if len(a) == 2 and type_name(I, st, a[0]) is not None:
                d = desc(I, st, a[1])
                if isinstance(d, tuple) and d[0] == 'lit':
                    return d if type_name(I, st, a[0]) in ('StringType', 'BooleanType') else ('lit', d[1], type_name(I, st, a[0]))
            return ('made',) + tuple(show(x) for x in a)
        w = st.store.get(('copyof', v)) or st.store.get(('contents', v))
        if w is None or w == v:
            break
        v = I.norm(st, I.val(st, w))
        d = any_get(I, st, v)
        if d is not None:
            return d
    n = show(v)
    return n[5:-1] if n.startswith('<arg:') else ('value', n)


def target(I, st, arg):
    """the object an argument refers to, as a key"""
    if arg[0] == 'ref':
        l = I.canon_loc(st, arg[1])
        return l[1] if l[0] == 'self' else I.norm(st, I.read(st, l))
    return I.norm(st, arg)


def set_desc(I, st, arg, d):
    o = target(I, st, arg)
    par = st.store.get(('fld', o, 'anyparent'))
    any_put(I, st, arg, d, 'val')
    if par is not None:
        parent, f = par[1]
        set_desc(I, st, parent, ('with', desc(I, st, parent), f[1], d))


def forks(I, st, name, args):
    out = []
    for b in (True, False):
        s = st.copy()
        I.ev(s, 'drv', name, tuple(('c', a) for a in args), C(b))
        out.append((s, b))
    return out


def known_empty(d):
    if d == 'EMPTY':
        return True
    return None if isinstance(d, tuple) and d[0] in ('value', 'made') else False


SUP = 'sup::dto::'
CODES = {'EmptyType': 'Empty', 'BooleanType': 'Bool', 'Character8Type': 'Char8', 'SignedInteger8Type': 'Int8', 'UnsignedInteger8Type': 'UInt8',
         'SignedInteger16Type': 'Int16', 'UnsignedInteger16Type': 'UInt16', 'SignedInteger32Type': 'Int32', 'UnsignedInteger32Type': 'UInt32',
         'SignedInteger64Type': 'Int64', 'UnsignedInteger64Type': 'UInt64', 'Float32Type': 'Float32', 'Float64Type': 'Float64', 'StringType': 'String'}


def type_name(I, st, v):
    """name of the type constant a type was copied from"""
    v = I.norm(st, I.val(st, v))
    for _ in range(8):
        if v[0] == 't' and v[1] == 'global':
            return v[2].split('::')[-1]
        d = any_get(I, st, v)
        if isinstance(d, tuple) and d[0] == 'type' and isinstance(d[1], tuple) and d[1][0] == 'parsed':
            return d[1][1]
        w = st.store.get(('copyof', v)) or st.store.get(('ctorargs', v))
        if w is None:
            return None
        w = w[1][0] if w[0] == 'tup' and len(w[1]) == 1 else w
        v = I.norm(st, I.val(st, w))
    return None


def val_hook(given=None):
    """given(I, st, fr, node, name, recv, args): the environment of one check, consulted first"""
    def store(I, st, arg, ok, d):
        if ok:
            set_desc(I, st, arg, d)
        return (st, C(ok))

    def extra(I, st, fr, node, name, recv, args):
        if given is not None:
            r = given(I, st, fr, node, name, recv, args)
            if r is not None:
                return r
        if args is None or not name.startswith('sup::dto::'):
            return None
        last = name.split('::')[-1]
        if last == 'GetTypeCode' and recv is not None and 'AnyType::' in name:
            t = type_name(I, st, recv)
            if t in CODES:
                k = SUP + 'TypeCode::' + CODES[t]
                return [(st, ('e', k, list(CODES).index(t)))]
        if last == 'HasField' and recv is not None:
            f = I.norm(st, I.val(st, args[0]))
            return [(s, C(b)) for s, b in forks(I, st, 'HasField', (desc(I, st, recv), f[1] if f[0] == 'c' else show(f)))]
        if last == 'operator[]' and recv is not None and len(args) == 1:
            f = I.norm(st, I.val(st, args[0]))
            f = f if f[0] == 'c' else ('c', show(f))
            o = any_make(I, st, ('field', desc(I, st, recv), f[1]), 'fld')
            st.store[('fld', o, 'anyparent')] = ('tup', (recv, f))
            return [(st, ('ref', ('self', o)))]
        if last == 'IsEmptyValue' and len(args) == 1:
            d = desc(I, st, args[0])
            k = known_empty(d)
            if k is not None:
                return [(st, C(k))]
            return [(s, C(b)) for s, b in forks(I, st, 'IsEmpty', (d,))]
        if last in ('TryAssign', 'TryConvert', 'TryAssignIfEmptyOrConvert') and len(args) == 2:
            dd, sd = desc(I, st, args[0]), desc(I, st, args[1])
            how = last
            if how == 'TryAssignIfEmptyOrConvert':
                k = known_empty(dd)
                if k is None:
                    out = []
                    for s, b in forks(I, st, 'IsEmpty', (dd,)):
                        for s2, ok in forks(I, s, 'Assign' if b else 'Convert', (sd,) if b else (dd, sd)):
                            out.append(store(I, s2, args[0], ok, sd if b else ('conv', dd, sd)))
                    return out
                how = 'TryAssign' if k else 'TryConvert'
            if how == 'TryAssign':
                if dd == 'EMPTY':
                    return [store(I, st, args[0], True, sd)]      # an empty value takes any value
                return [store(I, s, args[0], ok, sd) for s, ok in forks(I, st, 'Assign', (dd, sd))]
            return [store(I, s, args[0], ok, ('conv', dd, sd)) for s, ok in forks(I, st, 'Convert', (dd, sd))]
        if last == 'operator=' and recv is not None and len(args) == 1 and 'AnyValue::' in name:
            set_desc(I, st, recv, desc(I, st, args[0]))
            return [(st, recv)]
        return None
    return extra


def program(ops, given=None):
    """environment of a client program that asks Op(k) what to do next; ops: list of constants"""
    def extra(I, st, fr, node, name, recv, args):
        if name == 'oacdrv::Op' and args:
            k = I.norm(st, I.val(st, args[0]))[1]
            return [(st, C(ops[k] if k < len(ops) else -1))]
        if given is not None:
            return given(I, st, fr, node, name, recv, args)
    return extra
