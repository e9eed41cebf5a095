"""Builtins, and models (trusted contracts) of library modules."""
import math as _math
import string as _string

import z3

from . import core
from . import seq as S
from .core import (BInt, SBool, SInt, SReal, Unsupported, add, arith, b,
                   bounds, compare, conj, cur, disj, eq, fresh_int, is_int,
                   is_sym, mkbool, modc, neg, promote, sub, z)
from .seq import Seq
from .interp import (BYTE_KINDS, BoundV, Builtin, ClassMethodV, ClassV,
                     DictV, EXC, ExtV, FuncV, GenV, ListIter, LiveIter,
                     ModuleV, NOTFOUND, NOTIMPL, NativeObj, NativeType, Obj,
                     PropV, RangeV, SetV, StaticV, SuperV, SymIter, TYPES,
                     TypeV, UNK, isinstance_, raise_exc, type_of,
                     values_equal)

BUILTINS = {}
MODELS = {}
TRUSTED = {}        # description of every model used: name -> text


def builtin(name):
    def d(f):
        BUILTINS[name] = Builtin(name, f)
        return f
    return d


BUILTINS['NotImplemented'] = NOTIMPL
BUILTINS['True'] = True
BUILTINS['object'] = EXC['object']


@builtin('len')
def _len(I, a, k):
    v = a[0]
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, Seq):
        return v.length()
    if isinstance(v, DictV):
        return len(v.keys_)
    if isinstance(v, SetV):
        return len(v.items())
    if isinstance(v, Obj):
        m = v.cls.lookup('__len__')
        if m is not NOTFOUND:
            return I.call(BoundV(m, v), [], {})
    if isinstance(v, RangeV):
        return v.count()
    if isinstance(v, NativeObj) and hasattr(v, 'm___len__'):
        return v.m___len__(I)
    if isinstance(v, ExtV):
        raise Unsupported('len of external')
    raise_exc('TypeError', 'object has no len()')


@builtin('range')
def _range(I, a, k):
    a = [promote(x) for x in a]
    for x in a:
        if not is_int(x):
            if isinstance(x, SReal) or isinstance(x, float):
                raise_exc('TypeError', "'float' object cannot be interpreted "
                          "as an integer")
            raise_exc('TypeError', 'not an integer')
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    if isinstance(a[2], int) and a[2] == 0:
        raise_exc('ValueError', 'range() arg 3 must not be zero')
    return RangeV(*a)


BUILTINS['xrange'] = BUILTINS['range']


@builtin('isinstance')
def _isinstance(I, a, k):
    return isinstance_(a[0], a[1])


@builtin('issubclass')
def _issubclass(I, a, k):
    ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    if isinstance(a[0], ClassV):
        return any(t in a[0].mro for t in ts)
    raise Unsupported('issubclass')


@builtin('getattr')
def _getattr(I, a, k):
    r = I.getattr_or(a[0], a[1])
    if r is NOTFOUND:
        if len(a) > 2:
            return a[2]
        raise_exc('AttributeError', a[1])
    return r


@builtin('hasattr')
def _hasattr(I, a, k):
    return I.getattr_or(a[0], a[1]) is not NOTFOUND


@builtin('setattr')
def _setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


@builtin('callable')
def _callable(I, a, k):
    return isinstance(a[0], (FuncV, BoundV, Builtin, ClassV, TypeV)) or (
        isinstance(a[0], Obj)
        and I.getattr_or(a[0].cls, '__call__') is not NOTFOUND)


@builtin('id')
def _id(I, a, k):
    return id(a[0])


@builtin('print')
def _print(I, a, k):
    return None


@builtin('ord')
def _ord(I, a, k):
    v = a[0]
    if isinstance(v, str):
        if len(v) != 1:
            raise_exc('TypeError', 'ord() expected a character')
        return ord(v)
    if isinstance(v, Seq) and v.kind != 'list':
        n = v.length()
        if cur().branch(neg(eq(n, 1))):
            raise_exc('TypeError', 'ord() expected a character')
        return v.get(0)
    raise_exc('TypeError', 'ord() expected string of length 1')


@builtin('chr')
def _chr(I, a, k):
    v = promote(a[0])
    if isinstance(v, int):
        try:
            return chr(v)
        except ValueError as e:
            raise_exc('ValueError', str(e))
    return Seq.units('str', [v])


@builtin('abs')
def _abs(I, a, k):
    v = promote(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    return core.ite(compare('<', v, 0), arith('-', 0, v), v)


def _minmax(I, a, k, op):
    items = a if len(a) > 1 else I.to_list(a[0])
    if not items:
        if 'default' in k:
            return k['default']
        raise_exc('ValueError', 'arg is an empty sequence')
    key = k.get('key')
    best = items[0]
    kb = I.call(key, [best], {}) if key else best
    for x in items[1:]:
        kx = I.call(key, [x], {}) if key else x
        c = I.order(op, kx, kb)
        if is_int(best) and is_int(x) and key is None \
                and isinstance(c, SBool):
            best = kb = core.ite(c, promote(x), promote(best))
        elif I.truth(c):
            best, kb = x, kx
    return best


@builtin('min')
def _min(I, a, k):
    return _minmax(I, a, k, '<')


@builtin('max')
def _max(I, a, k):
    return _minmax(I, a, k, '>')


@builtin('sum')
def _sum(I, a, k):
    start = a[1] if len(a) > 1 else 0
    v = a[0]
    if isinstance(v, Seq):
        v = Seq(v.kind, v.segs).normalize()
        if not v.is_units():
            if v.kind not in BYTE_KINDS:
                raise Unsupported('sum of a list of symbolic length')
            return add(start, seq_sum(v))
    r = start
    for x in I.to_list(v):
        r = I.binop('+', r, x)
    return r


def seq_sum(v):
    """sum of the octets of a rope: additive over concatenation"""
    r = 0
    for g in v.segs:
        if isinstance(g, S.U):
            for x in g.vals:
                r = add(r, x)
        elif isinstance(g, S.R):
            r = add(r, arith('*', g.val, g.n))
        elif isinstance(g.n, int) and g.n <= 512:
            for i in range(g.n):
                r = add(r, S.seg_elem(g, i))
        else:
            t = S.app_int('octetsum', (Seq('bytes', [g]),), 0)
            cur().add(z(t) <= 255 * z(g.n))
            r = add(r, t)
    return r


@builtin('any')
def _any(I, a, k):
    for x in I.to_list(a[0]):
        if I.truth(x):
            return True
    return False


@builtin('all')
def _all(I, a, k):
    for x in I.to_list(a[0]):
        if not I.truth(x):
            return False
    return True


@builtin('map')
def _map(I, a, k):
    f = a[0]
    if len(a) == 2 and isinstance(f, Obj) and isinstance(a[1], Seq) \
            and any(isinstance(g, S.A) for g in a[1].segs):
        # a stateful function, applied to octets one after the other
        from .loops import iter_at
        count, at = iter_at(I, a[1])
        r = SymIter(count, lambda i: I.call(f, [at(i)], {}))
        r.effects = f.cls.name
        return r
    its = [I.iter_concrete(x) for x in a[1:]]
    if any(x is None for x in its):
        if len(a) == 2:
            from .loops import iter_at
            count, at = iter_at(I, a[1])
            return SymIter(count, lambda i: I.call(f, [at(i)], {}))
        raise Unsupported('map over symbolic length')
    out = []
    while True:
        vals = []
        for it in its:
            ok, v = it.next()
            if not ok:
                return ListIter(out)
            vals.append(v)
        out.append(I.call(f, vals, {}))


@builtin('filter')
def _filter(I, a, k):
    out = []
    for x in I.to_list(a[1]):
        if I.truth(x if a[0] is None else I.call(a[0], [x], {})):
            out.append(x)
    return ListIter(out)


@builtin('zip')
def _zip(I, a, k):
    its = [I.iter_concrete(x) for x in a]
    if any(x is None for x in its):
        from .loops import iter_at
        pairs = [iter_at(I, x if its[i] is None else
                         Seq.units('list', I.to_list(x)))
                 for i, x in enumerate(a)]
        n = pairs[0][0]
        for c, _ in pairs[1:]:
            if cur().branch(compare('<', c, n)):
                n = c
        if isinstance(n, int):
            return ListIter([tuple(at(i) for _, at in pairs)
                             for i in range(n)])
        return SymIter(n, lambda i: tuple(at(i) for _, at in pairs))
    out = []
    while True:
        vals = []
        for it in its:
            ok, v = it.next()
            if not ok:
                return ListIter(out)
            vals.append(v)
        out.append(tuple(vals))


@builtin('enumerate')
def _enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    it = I.iter_concrete(a[0])
    if it is None:
        from .loops import iter_at
        n, at = iter_at(I, a[0])
        return SymIter(n, lambda i: (add(i, start), at(i)))
    return ListIter([(add(start, i), v)
                     for i, v in enumerate(I.to_list(it))])


@builtin('iter')
def _iter(I, a, k):
    v = a[0]
    if isinstance(v, Obj):
        m = v.cls.lookup('__iter__')
        if m is not NOTFOUND:
            return I.call(BoundV(m, v), [], {})
    r = I.iter_concrete(v)
    if r is None:
        raise Unsupported('iter over symbolic length')
    return r


@builtin('next')
def _next(I, a, k):
    it = a[0]
    if isinstance(it, Obj):
        return I.call_method(it, '__next__', [], {})
    ok, v = it.next()
    if ok:
        return v
    if len(a) > 1:
        return a[1]
    raise_exc('StopIteration', '')


@builtin('reversed')
def _reversed(I, a, k):
    from .loops import iter_at
    if I.iter_concrete(a[0]) is None:
        n, at = iter_at(I, a[0])
        return SymIter(n, lambda i: at(core.sub(core.sub(n, 1), i)))
    return ListIter(list(reversed(I.to_list(a[0]))))


@builtin('sorted')
def _sorted(I, a, k):
    for kk in k:
        if kk not in ('key', 'reverse'):
            raise_exc('TypeError', 'unexpected keyword argument')
    items = I.to_list(a[0])
    return Seq.units('list', sort_list(I, items, k.get('key'),
                                       k.get('reverse', False)))


def sort_list(I, items, key, rev):
    keyed = [(I.call(key, [x], {}) if key else x, x) for x in items]
    out = []
    for kx, x in keyed:         # stable insertion
        j = len(out)
        while j > 0:
            kj = out[j - 1][0]
            c = I.order('<', kj, kx) if rev else I.order('<', kx, kj)
            if not I.truth(c):
                break
            j -= 1
        out.insert(j, (kx, x))
    return [x for _, x in out]


@builtin('divmod')
def _divmod(I, a, k):
    return (I.binop('//', a[0], a[1]), I.binop('%', a[0], a[1]))


@builtin('pow')
def _pow(I, a, k):
    if all(isinstance(x, int) for x in a):
        return pow(*a)
    if len(a) == 2:
        return I.binop('**', a[0], a[1])
    return S.app_int('powmod', tuple(a), 0)


@builtin('round')
def _round(I, a, k):
    if all(isinstance(x, (int, float)) for x in a):
        return round(*a)
    raise Unsupported('round')


@builtin('repr')
def _repr(I, a, k):
    return I.to_repr(a[0])


@builtin('hash')
def _hash(I, a, k):
    if isinstance(a[0], Obj):
        m = a[0].cls.lookup('__hash__')
        if m is not NOTFOUND and m is not None:
            return I.call(BoundV(m, a[0]), [], {})
        return id(a[0])
    nat = I.native_or_none(a[0])
    if nat is UNK:
        return S.app_int('hash', (a[0],))
    return hash(nat)


@builtin('format')
def _format(I, a, k):
    return I.format_one(a[0], a[1] if len(a) > 1 else '')


@builtin('bin')
def _bin(I, a, k):
    if isinstance(a[0], int):
        return bin(a[0])
    raise Unsupported('bin')


@builtin('hex')
def _hex(I, a, k):
    if isinstance(a[0], int):
        return hex(a[0])
    raise Unsupported('hex')


@builtin('vars')
def _vars(I, a, k):
    return DictV(list(a[0].attrs.items()))


@builtin('dir')
def _dir(I, a, k):
    raise Unsupported('dir')


@builtin('open')
def _open(I, a, k):
    return files().open(I, *a, **k)


@builtin('property')
def _property(I, a, k):
    a = list(a) + [None] * (4 - len(a))
    return PropV(k.get('fget', a[0]), k.get('fset', a[1]),
                 k.get('fdel', a[2]))


@builtin('classmethod')
def _classmethod(I, a, k):
    return ClassMethodV(a[0])


@builtin('staticmethod')
def _staticmethod(I, a, k):
    return StaticV(a[0])


@builtin('super')
def _super(I, a, k):
    return SuperV(a[0], a[1])


# ------------------------------------------------------------- type calls

def call_type(I, name, a, k):
    a = list(a)
    if name == 'int':
        return call_int(I, a, k)
    if name == 'bool':
        if not a:
            return False
        v = a[0]
        if isinstance(v, SBool):
            return v
        if isinstance(v, (SInt, BInt)):
            return neg(eq(v, 0))
        return I.truth(v)
    if name == 'float':
        v = promote(a[0]) if a else 0.0
        if isinstance(v, (int, float)):
            return float(v)
        if is_int(v):
            return SReal(v, 1)
        if isinstance(v, SReal):
            return v
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError as e:
                raise_exc('ValueError', str(e))
        raise Unsupported('float()')
    if name == 'str':
        if not a:
            return ''
        v = a[0]
        if len(a) > 1 or k:
            return native_attr(I, v, 'decode').fn(I, a[1:], k)
        return I.to_str(v)
    if name in BYTE_KINDS:
        return call_bytes(I, name, a, k)
    if name == 'list':
        if not a:
            return Seq('list')
        return I.to_seq(a[0], 'list')
    if name == 'tuple':
        return tuple(I.to_list(a[0])) if a else ()
    if name in ('set', 'frozenset'):
        return SetV(I.to_list(a[0])) if a else SetV()
    if name == 'dict':
        d = DictV()
        if a:
            v = a[0]
            if isinstance(v, DictV):
                for kk, vv in v.items():
                    d.set(kk, vv)
            else:
                for it in I.to_list(v):
                    kk, vv = I.to_list(it)
                    d.set(kk, vv)
        for kk, vv in k.items():
            d.set(kk, vv)
        return d
    if name == 'type':
        if len(a) == 1:
            return type_of(a[0])
        ns = dict((kk, vv) for kk, vv in a[2].items())
        return I.make_class(a[0], list(a[1]), ns, None)
    raise Unsupported('call of type %s' % name)


def call_int(I, a, k):
    if not a:
        return 0
    if isinstance(a[0], Log2):
        return a[0].floor()
    v = promote(a[0])
    base = promote(a[1]) if len(a) > 1 else promote(k.get('base', 10))
    if is_int(v):
        return v
    if isinstance(v, float):
        return int(v)
    if isinstance(v, SReal):
        if bounds(v.num)[0] is not None and bounds(v.num)[0] >= 0 \
                or cur().prove(compare('>=', v.num, 0)):
            return arith('//', v.num, v.den)
        raise Unsupported('int() of possibly negative rational')
    if isinstance(v, str):
        try:
            return int(v, base) if (len(a) > 1 or k) else int(v)
        except ValueError as e:
            raise_exc('ValueError', str(e))
    if isinstance(v, Seq) and v.kind in ('str', 'bytes', 'bytearray'):
        if v.is_concrete() and isinstance(base, int):
            try:
                return int(v.native(), base)
            except ValueError as e:
                raise_exc('ValueError', str(e))
        ln = v.length()
        if base == 16 and not v.is_units() and type(ln) is not int:
            for k_ in (2, 1, 4, 8):
                if cur().prove(eq(ln, k_)):
                    ln = k_
                    break
        if base == 16 and not v.is_units() and type(ln) is int \
                and ln <= 64:
            v = Seq.units(v.kind, [v.get(i) for i in range(ln)])
        if base == 16 and v.is_units():
            r = 0
            for c in v.unit_vals():
                r = add(arith('*', r, 16), hexval(c, True))
            if not v.unit_vals():
                raise_exc('ValueError', 'invalid literal')
            return r
        if base == 16 or base == 10:
            r = S.app_int('parseint%d' % base, (v,))
            ok = mkbool(core.uf('okint%d' % base, 1)(z(r)) == 1)
            if cur().branch(ok):
                return r
            raise_exc('ValueError', 'invalid literal for int()')
    if isinstance(v, Obj):
        m = v.cls.lookup('__int__')
        if m is not NOTFOUND:
            return I.call(BoundV(m, v), [], {})
    if v is None or isinstance(v, (tuple, Seq, DictV, Obj)):
        raise_exc('TypeError', 'int() argument must be a string or a number')
    raise Unsupported('int(%r)' % (v,))


def hexval(c, strict=False):
    """value of a hexadecimal digit character"""
    if isinstance(c, int):
        try:
            return int(chr(c), 16)
        except ValueError as e:
            raise_exc('ValueError', str(e))
    k = known_hexdigit(c)
    if k is not None:
        return k[1]
    r = core.ite(conj([compare('<=', 48, c), compare('<=', c, 57)]),
                 sub(c, 48),
                 core.ite(conj([compare('<=', 65, c),
                                compare('<=', c, 70)]), sub(c, 55),
                          sub(c, 87)))
    ok = disj([conj([compare('<=', lo, c), compare('<=', c, hi)])
               for lo, hi in ((48, 57), (65, 70), (97, 102))])
    if not cur().branch(ok):
        if strict:
            raise Unsupported('int() of text that is not hexadecimal digits')
        raise_exc('ValueError', 'invalid literal for int() with base 16')
    if isinstance(r, SInt):
        return SInt(r.e, 0, 15)
    return r


def call_bytes(I, name, a, k):
    if not a:
        return Seq(name)
    v = promote(a[0])
    if len(a) > 1 or 'encoding' in k:
        if not (isinstance(v, str) or isinstance(v, Seq)
                and v.kind == 'str'):
            raise_exc('TypeError', 'encoding without a string argument')
        r = native_attr(I, v, 'encode').fn(I, a[1:], k)
        return r.copy(name)
    if isinstance(v, str) or isinstance(v, Seq) and v.kind == 'str':
        raise_exc('TypeError', 'string argument without an encoding')
    if is_int(v):
        if cur().branch(compare('<', v, 0)):
            raise_exc('ValueError', 'negative count')
        return I.repeat(Seq.units(name, [0]), v) if not (
            isinstance(v, int) and v == 0) else Seq(name)
    if isinstance(v, Obj):
        m = v.cls.lookup('__bytes__')
        if m is not NOTFOUND:
            r = I.call(BoundV(m, v), [], {})
            if not (isinstance(r, Seq) and r.kind == 'bytes'):
                if name == 'bytes':
                    raise_exc('TypeError', '__bytes__ returned non-bytes')
            return r.copy(name)
    if isinstance(v, NativeObj) and hasattr(v, 'm___bytes__'):
        return v.m___bytes__(I).copy(name)
    if isinstance(v, (float, SReal)):
        raise_exc('TypeError', 'cannot convert float to bytes')
    return I.to_seq(v, name)


# ---------------------------------------------------- attributes of natives

def meth(name, f):
    return Builtin(name, f)


def int_from_bytes(I, a, k):
    order = a[1] if len(a) > 1 else k.get('byteorder')
    v = I.to_seq(a[0], 'bytes')
    if k.get('signed'):
        raise Unsupported('signed from_bytes')
    if order == 'little':
        v = Seq.units('bytes', list(reversed(I.to_list(v))))
    return S.seq_ival(v)


def native_attr(I, o, name):
    if isinstance(o, TypeV):
        if name == '__name__':
            return o.name
        if o.name == 'int' and name == 'from_bytes':
            return meth(name, int_from_bytes)
        if o.name == 'dict' and name == 'fromkeys':
            return meth(name, lambda i, a, k: DictV(
                [(x, a[1] if len(a) > 1 else None)
                 for x in I.to_list(a[0])]))
        if o.name == 'bytes' and name == 'fromhex' or \
                o.name == 'bytearray' and name == 'fromhex':
            return meth(name, lambda i, a, k: unhex(o.name, a[0]))
        if o.name == 'str' and name in ('join', 'upper', 'lower', 'strip',
                                        'encode', 'maketrans'):
            return meth(name, lambda i, a, k: native_attr(
                I, a[0], name).fn(I, a[1:], k))
        if o.name in BYTE_KINDS and name in ('join',):
            return meth(name, lambda i, a, k: native_attr(
                I, a[0], name).fn(I, a[1:], k))
        if name == '__init__':
            return meth(name, lambda i, a, k: None)
        return NOTFOUND
    if o is None:
        if name == '__class__':
            return TYPES['NoneType']
        return NOTFOUND
    if isinstance(o, (str, Seq)):
        if name == '__class__':
            return type_of(o)
        if name == '__bytes__':
            return NOTFOUND
        f = SEQ_METHODS.get(name)
        kind = 'str' if isinstance(o, str) else o.kind
        if f is not None and name in KIND_METHODS[kind]:
            return meth(name, lambda i, a, k: f(I, o, *a, **k))
        if isinstance(o, str) and hasattr(o, name):
            return meth(name, lambda i, a, k: native_call(I, o, name, a, k))
        if isinstance(o, Seq) and o.kind != 'list' and hasattr(
                b'' if o.kind != 'str' else '', name):
            return meth(name, lambda i, a, k: native_call(I, o, name, a, k))
        return NOTFOUND
    if isinstance(o, DictV):
        f = DICT_METHODS.get(name)
        if f:
            return meth(name, lambda i, a, k: f(I, o, *a, **k))
        return NOTFOUND
    if isinstance(o, SetV):
        f = SET_METHODS.get(name)
        if f:
            return meth(name, lambda i, a, k: f(I, o, *a, **k))
        return NOTFOUND
    if isinstance(o, tuple):
        if name == 'index':
            return meth(name, lambda i, a, k: o.index(a[0]))
        if name == 'count':
            return meth(name, lambda i, a, k: o.count(a[0]))
        return NOTFOUND
    if is_int(o) or isinstance(o, SBool):
        o = promote(o)
        if name == 'bit_length':
            def bl(i, a, k):
                if not isinstance(o, int) and cur().branch(
                        compare('<', o, 0)):
                    return S.bit_length(arith('-', 0, o))
                return S.bit_length(o)
            return meth(name, bl)
        if name == 'to_bytes':
            def tb(i, a, k):
                n = promote(a[0] if a else k['length'])
                order = a[1] if len(a) > 1 else k.get('byteorder')
                if isinstance(o, int) and isinstance(n, int):
                    try:
                        return S.from_native(o.to_bytes(n, order))
                    except OverflowError as e:
                        raise_exc('OverflowError', str(e))
                if cur().branch(compare('<', o, 0)):
                    raise_exc('OverflowError', 'negative')
                if not S.fits(o, n):
                    if not isinstance(n, int):
                        raise Unsupported('to_bytes: width not shown '
                                          'sufficient')
                    if not cur().branch(compare('<', o, 1 << (8 * n))):
                        raise_exc('OverflowError', 'int too big to convert')
                if isinstance(n, int) and isinstance(o, BInt):
                    vals = [arith('&', arith('>>', o, 8 * j), 255)
                            for j in range(n - 1, -1, -1)]
                    if order == 'little':
                        vals.reverse()
                    return Seq.units('bytes', vals)
                r = Seq('bytes', [S.BE(o, n)]).normalize()
                if order == 'little':
                    return Seq.units('bytes', list(reversed(I.to_list(r))))
                return r
            return meth(name, tb)
        if name == '__class__':
            return type_of(o)
        return NOTFOUND
    if isinstance(o, (float, SReal)):
        if isinstance(o, float) and name in ('is_integer', 'hex'):
            return meth(name, lambda i, a, k: getattr(o, name)(*a))
        return NOTFOUND
    if isinstance(o, GenV):
        if name == 'close':
            return meth(name, lambda i, a, k: o.close())
        if name in ('next', '__next__'):
            return meth(name, lambda i, a, k: _next(I, [o], {}))
    if isinstance(o, (ListIter, LiveIter)):
        if name in ('next', '__next__'):
            return meth(name, lambda i, a, k: _next(I, [o], {}))
    if isinstance(o, RangeV):
        return NOTFOUND
    if isinstance(o, (StaticV, ClassMethodV)):
        if name == '__func__':
            return o.f
    return NOTFOUND


def to_native(I, v):
    if isinstance(v, Seq):
        if v.is_concrete():
            return v.native()
        if v.kind == 'list' and v.is_units():
            return [to_native(I, x) for x in v.unit_vals()]
        raise Unsupported('symbolic argument to a native method')
    if isinstance(v, tuple):
        return tuple(to_native(I, x) for x in v)
    if isinstance(v, (int, str, float)) or v is None:
        return v
    raise Unsupported('argument %r to a native method' % (v,))


def from_native(v):
    if isinstance(v, (bytes, bytearray)):
        return S.from_native(v)
    if isinstance(v, list):
        return Seq.units('list', [from_native(x) for x in v])
    if isinstance(v, tuple):
        return tuple(from_native(x) for x in v)
    return v


def native_call(I, o, name, a, k):
    n = to_native(I, o)
    try:
        r = getattr(n, name)(*[to_native(I, x) for x in a],
                             **{kk: to_native(I, x) for kk, x in k.items()})
    except ValueError as e:
        if isinstance(e, UnicodeDecodeError):
            raise_exc('UnicodeDecodeError', str(e))
        if isinstance(e, UnicodeEncodeError):
            raise_exc('UnicodeEncodeError', str(e))
        raise_exc('ValueError', str(e))
    except (TypeError, IndexError, KeyError, LookupError) as e:
        raise_exc(type(e).__name__, str(e))
    return from_native(r)


SEQ_METHODS = {}


def seqm(f):
    SEQ_METHODS[f.__name__[2:]] = f
    return f


@seqm
def s_append(I, o, x):
    if o.kind == 'bytearray':
        x = I.check_byte(x)
    o.extend_segs([S.U((x,))])


@seqm
def s_extend(I, o, x):
    I.seq_extend(o, x)


@seqm
def s_insert(I, o, i, x):
    if o.kind == 'bytearray':
        x = I.check_byte(x)
    i = promote(i)
    if isinstance(i, int) and i == 0:
        o.segs = [S.U((x,))] + list(o.segs)
        o.normalize()
        return
    if o.is_units() and isinstance(i, int):
        vals = o.unit_vals()
        vals.insert(i, x)
        o.segs = [S.U(tuple(vals))]
        return
    n = o.length()
    if cur().branch(compare('<', i, 0)):
        i = add(i, n)
        if cur().branch(compare('<', i, 0)):
            i = 0
    if cur().branch(compare('>', i, n)):
        i = n
    l, r = o.split(i)
    o.segs = l + [S.U((x,))] + r
    o.normalize()


@seqm
def s_pop(I, o, i=-1):
    i = promote(i)
    n = o.length()
    if cur().branch(eq(n, 0)):
        raise_exc('IndexError', 'pop from empty list')
    if isinstance(i, int) and o.is_units():
        vals = o.unit_vals()
        try:
            r = vals.pop(i)
        except IndexError as e:
            raise_exc('IndexError', str(e))
        o.segs = [S.U(tuple(vals))] if vals else []
        return r
    if cur().branch(compare('<', i, 0)):
        i = add(i, n)
    r = I.index(o, i)
    l, rest = o.split(i)
    _, rest = Seq(o.kind, rest).split(1)
    o.segs = l + rest
    return r


@seqm
def s_remove(I, o, x):
    vals = o.unit_vals() if o.is_units() else None
    if vals is None:
        raise Unsupported('remove from symbolic list')
    for i, v in enumerate(vals):
        if I.truth(values_equal(v, x)):
            del vals[i]
            o.segs = [S.U(tuple(vals))] if vals else []
            return
    raise_exc('ValueError', 'not in list')


@seqm
def s_clear(I, o):
    o.segs = []


@seqm
def s_reverse(I, o):
    if isinstance(o.length(), int):
        vals = I.to_list(o)
        o.segs = [S.U(tuple(reversed(vals)))] if vals else []
        return
    o.segs = S.reverse(o).segs


@seqm
def s_sort(I, o, key=None, reverse=False):
    vals = sort_list(I, I.to_list(o), key, reverse)
    o.segs = [S.U(tuple(vals))] if vals else []


@seqm
def s_copy(I, o):
    return o.copy()


@seqm
def s_index(I, o, x, *a):
    if isinstance(o, str) or o.kind != 'list':
        if not is_int(x):
            r = s_find(I, o, x, *a)
            if I.truth(compare('<', r, 0)):
                raise_exc('ValueError', 'substring not found')
            return r
    for i, v in enumerate(I.to_list(o)):
        if a and i < a[0]:
            continue
        if I.truth(values_equal(v, x)):
            return i
    raise_exc('ValueError', 'not in list')


@seqm
def s_count(I, o, x):
    if isinstance(o, str) or o.kind == 'str':
        return native_call(I, o, 'count', [x], {})
    r = 0
    for v in I.to_list(o):
        r = add(r, promote(values_equal(v, x)))
    return r


@seqm
def s_find(I, o, x, start=0, end=None):
    if (isinstance(o, str) or o.is_concrete()) and (
            not isinstance(x, Seq) or x.is_concrete()) \
            and isinstance(start, int):
        return native_call(I, o, 'find', [x, start] + (
            [end] if end is not None else []), {})
    s = S.str_seq(o)
    t = Seq.units('bytes', [x]) if is_int(x) else S.str_seq(x)
    if not (isinstance(start, int) and start >= 0):
        raise Unsupported('find with symbolic start')
    if t.is_units() and s.is_units() and end is None:
        a_, b_ = s.unit_vals(), t.unit_vals()
        for i in range(start, len(a_) - len(b_) + 1):
            if cur().branch(conj([eq(a_[i + j], b_[j])
                                  for j in range(len(b_))])):
                return i
        return -1
    if end is None and t.is_units() and len(t.unit_vals()) == 1:
        r = walk_find(s.copy().normalize(), t.unit_vals()[0], start)
        if r is not None:
            return r
    # uninterpreted: the first position
    return sym_find(I, s, t, start, end)


def walk_find(s, x, start):
    """first x when every part before it is of single octets or is known
    not to contain it"""
    p = cur()
    pos = 0
    todo = []
    for g in s.segs:
        if isinstance(g, S.U):
            todo.extend((pos_add(pos, i), v) for i, v in enumerate(g.vals))
            pos = pos_add(pos, len(g.vals))
        elif isinstance(g, S.A) and x in g.base.without:
            if isinstance(pos, int) and pos < start:
                return None
            pos = add(pos, g.n)
        else:
            todo.append(None)
            break
    for e in todo:
        if e is None:
            return None
        q, v = e
        if isinstance(q, int):
            if q < start:
                continue
        elif not p.prove(b(compare('>=', q, start))):
            return None
        if p.branch(eq(v, x)):
            return q
    return -1


def pos_add(a_, k):
    return add(a_, k) if k else a_


def sym_find(I, s, t, start, end):
    """first occurrence of a single octet in a rope: defined by its two
    characteristic facts (found there, nowhere before)."""
    p = cur()
    if end is not None or not (t.is_units() and len(t.unit_vals()) == 1):
        raise Unsupported('find of a long pattern in a symbolic sequence')
    x = t.unit_vals()[0]
    n = s.length()
    # peel leading units
    def build(name, args):
        return fresh_int(name, -1)
    r = S.app('find', (s, t, start), build)
    found = compare('>=', r, 0)
    if p.branch(found):
        p.assume(conj([compare('<=', start, r), compare('<', r, n)]))
        p.assume(values_equal(s.get(r), x))
        cur().lemmas_used.add('find: first occurrence, characteristic facts')
        if not hasattr(p, 'finds'):
            p.finds = []
        p.finds.append((s, x, start, r))
        # nowhere before: instantiated on leading units
        pos = 0
        for g in s.segs:
            if not isinstance(g, S.U):
                break
            for v in g.vals:
                if pos >= start:
                    p.add(b(disj([compare('<=', r, pos),
                                  neg(values_equal(v, x))])))
                pos += 1
        return r
    return -1


@seqm
def s_startswith(I, o, x, *a):
    if a:
        return native_call(I, o, 'startswith', (x,) + a, {})
    if isinstance(x, tuple):
        for y in x:
            if I.truth(s_startswith(I, o, y)):
                return True
        return False
    if isinstance(o, str) and isinstance(x, str):
        return o.startswith(x)
    s, t = S.str_seq(o), S.str_seq(x)
    m = t.length()
    if cur().branch(compare('<', s.length(), m)):
        return False
    return values_equal(S.slice_seq(s, 0, m), t)


@seqm
def s_endswith(I, o, x):
    if isinstance(x, tuple):
        for y in x:
            if I.truth(s_endswith(I, o, y)):
                return True
        return False
    if isinstance(o, str) and isinstance(x, str):
        return o.endswith(x)
    s, t = S.str_seq(o), S.str_seq(x)
    m = t.length()
    n = s.length()
    if cur().branch(compare('<', n, m)):
        return False
    return values_equal(S.slice_seq(s, sub(n, m), None), t)


ENCODINGS = {'utf8': 'utf8', 'utf-8': 'utf8', 'UTF-8': 'utf8',
             'latin-1': 'latin1', 'latin1': 'latin1', 'ascii': 'ascii',
             'us-ascii': 'ascii', 'iso-8859-1': 'latin1'}


def enc_name(e):
    if not isinstance(e, str):
        raise Unsupported('encoding')
    return ENCODINGS.get(e, ENCODINGS.get(e.lower(), e))


@seqm
def s_encode(I, o, encoding='utf-8', errors='strict'):
    if isinstance(o, str) or o.is_concrete():
        return native_call(I, o, 'encode', [encoding, errors], {})
    e = enc_name(encoding)
    # PEP 383: decoding and encoding with surrogateescape is lossless
    args = S.whole_origin(o, 'decode_se_' + e)
    if args is not None:
        if errors == 'surrogateescape':
            return args[0].copy('bytes')
        raise Unsupported('encoding of escaped text')
    # encode(decode(b)) == b for text known to decode losslessly
    args = S.whole_origin(o, 'decode_' + e)
    if args is not None and any(S.args_same((args[0],), (x,))
                                for x in getattr(cur(), 'lossless', [])):
        return args[0].copy('bytes')
    if e == 'latin1' and args is not None:
        return args[0].copy('bytes')
    if o.is_units() and e in ('latin1', 'ascii', 'utf8'):
        lim = 255 if e == 'latin1' else 127
        ok = conj([compare('<=', c, lim) for c in o.unit_vals()])
        if cur().branch(ok):
            return Seq.units('bytes', [
                SInt(c.e, max(0, c.lo or 0),
                     lim if c.hi is None else min(c.hi, lim))
                if isinstance(c, SInt) else c
                for c in o.unit_vals()])
        if errors == 'strict' and e != 'utf8':
            raise_exc('UnicodeEncodeError', '')
    if e in ('ascii', 'latin1', 'utf8') and is_narrow(o, e):
        return o.copy('bytes')
    if errors == 'strict' and e == 'ascii':
        raise Unsupported('strict ascii encoding of symbolic text')
    if errors == 'strict' and e != 'utf8':
        raise Unsupported('strict encoding of arbitrary text')
    r = S.app_bytes('encode_' + e, (o,), None)
    if e == 'latin1':
        cur().add(b(eq(r.length(), o.length())))
    if e == 'utf8':
        cur().add(b(compare('<=', o.length(), r.length())))
        cur().add(b(compare('<=', r.length(), arith('*', o.length(), 4))))
    return r


def is_narrow(o, e):
    """all characters of the rope are known to be encoded as themselves"""
    lim = 255 if e == 'latin1' else 127
    for g in o.segs:
        if isinstance(g, S.U):
            if not all(isinstance(v, int) and v <= lim
                       or bounds(v)[1] is not None and bounds(v)[1] <= lim
                       for v in g.vals):
                return False
        elif isinstance(g, S.A):
            if g.base.maxchar > lim and not getattr(g.base, 'ascii', False):
                return False
        else:
            return False
    return True


@seqm
def s_decode(I, o, encoding='utf-8', errors='strict'):
    if o.is_concrete():
        return native_call(I, o, 'decode', [encoding, errors], {})
    e = enc_name(encoding)
    args = S.whole_origin(o, 'encode_' + e)
    if args is not None:
        # decode(encode(s)) == s (for utf8: any text without surrogates;
        # for latin1: text within latin-1, see narrow)
        if e == 'utf8' or any(S.args_same((args[0],), (x,))
                              for x in getattr(cur(), 'narrow', [])):
            return args[0].copy('str')
    if o.is_units() and (e == 'latin1'):
        return Seq.units('str', o.unit_vals())
    if o.is_units():
        ok = conj([compare('<=', c, 127) for c in o.unit_vals()])
        if cur().branch(ok):
            return Seq.units('str', o.unit_vals())
        if e == 'ascii' and errors == 'strict':
            raise_exc('UnicodeDecodeError', '')
    if is_narrow(o, e):
        return o.copy('str')
    if e == 'latin1':
        return o.copy('str') if all(
            isinstance(g, S.U) or isinstance(g, S.A) for g in o.segs) \
            else S.app_bytes('decode_latin1', (o,), o.length(), 'str')
    if errors == 'surrogateescape' and e in ('utf8', 'ascii'):
        r = S.app_bytes('decode_se_' + e, (o,), None, 'str')
        cur().add(b(compare('<=', r.length(), o.length())))
        if e == 'ascii':
            cur().add(b(eq(r.length(), o.length())))
        else:
            cur().add(b(compare('<=', o.length(), arith('*', r.length(),
                                                         4))))
        return r
    if errors == 'strict':
        ok = SBool(z3.Bool('valid_%s{%s}' % (e, S.seq_key(o))))
        if not cur().branch(ok):
            raise_exc('UnicodeDecodeError', '')
        r = S.app_bytes('decode_' + e, (o,), None, 'str')
        if not hasattr(cur(), 'lossless'):
            cur().lossless = []
        cur().lossless.append(o.copy('bytes'))
        return r
    return S.app_bytes('decode_' + e, (o,), None, 'str')


@seqm
def s_join(I, o, items):
    items = I.to_list(items)
    kind = 'str' if isinstance(o, str) else o.kind
    r = Seq(kind)
    osegs = S.str_seq(o).segs
    for i, x in enumerate(items):
        if not isinstance(x, (str, Seq)):
            raise_exc('TypeError', 'sequence item: wrong type')
        x = S.str_seq(x)
        if (x.kind == 'str') != (kind == 'str') or x.kind == 'list':
            raise_exc('TypeError', 'sequence item: wrong type')
        if i:
            r.segs = r.segs + list(osegs)
        r.segs = r.segs + list(x.segs)
    r.normalize()
    return S.simplify_str(r)


@seqm
def s_hex(I, o):
    if o.is_concrete():
        return o.native().hex()
    return hex_of(o, False)


def hexdigit(d, upper):
    r = core.ite(compare('<', d, 10), add(d, 48),
                 add(d, 55 if upper else 87))
    if isinstance(r, SInt):
        p = cur()
        if not hasattr(p, 'hexdigits'):
            p.hexdigits = {}
        p.hexdigits[r.e.get_id()] = (r.e, d, upper)
    return r


HEXPAIRS = {}


def hexpair(v, upper):
    """the two digits of an octet; terms are kept, so that their numbers
    stay theirs"""
    if type(v) is not SInt:
        return [hexdigit(arith('>>', v, 4), upper),
                hexdigit(arith('&', v, 15), upper)]
    k = (v.e.get_id(), v.lo, v.hi, upper)
    hit = HEXPAIRS.get(k)
    if hit is None:
        ds = [arith('>>', v, 4), arith('&', v, 15)]
        hit = v.e, [hexdigit(d, upper) for d in ds], ds
        if len(HEXPAIRS) > 20000:
            HEXPAIRS.clear()
        HEXPAIRS[k] = hit
    p = cur()
    if not hasattr(p, 'hexdigits'):
        p.hexdigits = {}
    for r, d in zip(hit[1], hit[2]):
        if isinstance(r, SInt):
            p.hexdigits[r.e.get_id()] = (r.e, d, upper)
    return list(hit[1])


UPPER = {}


def upper_digit(c, d):
    """the capital of the lower-case digit c of d"""
    k = c.e.get_id(), d.lo, d.hi
    hit = UPPER.get(k)
    if hit is None:
        hit = c.e, hexdigit(d, True)
        if len(UPPER) > 20000:
            UPPER.clear()
        UPPER[k] = hit
    if isinstance(hit[1], SInt):
        p = cur()
        if not hasattr(p, 'hexdigits'):
            p.hexdigits = {}
        p.hexdigits[hit[1].e.get_id()] = (hit[1].e, d, True)
    return hit[1]


def known_hexdigit(c):
    if isinstance(c, SInt):
        k = getattr(cur(), 'hexdigits', {}).get(c.e.get_id())
        if k is not None:
            return k
    return None


def unhex(kind, t):
    if isinstance(t, str):
        try:
            return Seq.units(kind, tuple(bytes.fromhex(t)))
        except ValueError as e:
            raise_exc('ValueError', str(e))
    a = S.whole_origin(t, 'hexL') or S.whole_origin(t, 'hexU')
    if a is not None:
        return a[0].copy(kind)
    n = t.length()
    if type(n) is int and n <= 256 and n % 2 == 0:
        return Seq.units(kind, [
            add(arith('*', hexval(t.get(i), True), 16),
                hexval(t.get(i + 1), True)) for i in range(0, n, 2)])
    raise Unsupported('fromhex() of arbitrary text')


def hex_of(o, upper):
    """hexadecimal text of an octet rope"""
    o = Seq(o.kind, o.segs).normalize()
    n = o.length()
    if isinstance(n, int) and n <= 64:
        chars = []
        for v in o.unit_vals() if o.is_units() else [
                o.get(i) for i in range(n)]:
            chars.extend(hexpair(v, upper))
        return S.simplify_str(Seq.units('str', chars))
    r = S.app_bytes('hex' + ('U' if upper else 'L'), (o,),
                    arith('*', n, 2), 'str')
    for g in r.segs:
        if isinstance(g, S.A) and g.base.defn is None:
            def digit(j, o=g.base.origin[1][0]):
                v = o.get(core.divc(j, 2))
                d = core.ite(eq(modc(j, 2), 0), arith('>>', v, 4),
                             arith('&', v, 15))
                return core.ite(compare('<', d, 10), add(d, 48),
                                add(d, 55 if upper else 87))
            g.base.defn = digit
            g.base.ascii = True
    return r


@seqm
def s_upper(I, o):
    if isinstance(o, str):
        return o.upper()
    if o.is_units() and all(bounds(c)[1] is not None and bounds(c)[1] < 128
                            for c in o.unit_vals()):
        out = []
        for c in o.unit_vals():
            k = known_hexdigit(c)
            if k is not None and (k[2] or isinstance(c, SInt)):
                out.append(c if k[2] else upper_digit(c, k[1])
                           if isinstance(k[1], SInt)
                           else hexdigit(k[1], True))
                continue
            out.append(core.ite(conj([compare('<=', 97, c),
                                      compare('<=', c, 122)]),
                                sub(c, 32), c))
        return Seq.units(o.kind, out)
    a = S.whole_origin(o, 'hexL') or S.whole_origin(o, 'hexU')
    if a is not None:
        return hex_of(a[0], True)
    return S.app_bytes('upper', (o,), None, o.kind)


@seqm
def s_lower(I, o):
    if isinstance(o, str):
        return o.lower()
    if o.is_units() and all(bounds(c)[1] is not None and bounds(c)[1] < 128
                            for c in o.unit_vals()):
        out = []
        for c in o.unit_vals():
            out.append(core.ite(conj([compare('<=', 65, c),
                                      compare('<=', c, 90)]),
                                add(c, 32), c))
        return Seq.units(o.kind, out)
    return S.app_bytes('lower', (o,), None, o.kind)


@seqm
def s_format(I, o, *a, **k):
    if not isinstance(o, str):
        raise Unsupported('format of symbolic string')
    parts = []
    auto = [0]
    for lit, field, spec, conv in _string.Formatter().parse(o):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if spec and '{' in spec:
            s2 = s_format(I, spec, *a[auto[0] + 1:], **k)
            spec = s2
        name = field
        rest = ''
        for j, ch in enumerate(field):
            if ch in '.[':
                name, rest = field[:j], field[j:]
                break
        if name == '':
            v = a[auto[0]]
            auto[0] += 1
        elif name.isdigit():
            if int(name) >= len(a):
                raise_exc('IndexError', 'tuple index out of range')
            v = a[int(name)]
        else:
            if name not in k:
                raise_exc('KeyError', name)
            v = k[name]
        if rest.startswith('.'):
            for at in rest[1:].split('.'):
                v = I.getattr(v, at)
        elif rest:
            raise Unsupported('format field')
        if conv == 'r':
            v = I.to_repr(v)
        elif conv == 's':
            v = I.to_str(v)
        parts.append(I.format_one(v, spec or ''))
    return I.concat_strs(parts)


@seqm
def s_strip(I, o, *a):
    return _strip(I, o, a, True, True, 'strip')


@seqm
def s_rstrip(I, o, *a):
    return _strip(I, o, a, False, True, 'rstrip')


@seqm
def s_lstrip(I, o, *a):
    return _strip(I, o, a, True, False, 'lstrip')


def _strip(I, o, a, left, right, name):
    if isinstance(o, str) or o.is_concrete():
        return native_call(I, o, name, a, {})
    if o.is_units():
        chars = a[0] if a and a[0] is not None else None
        if chars is None:
            cs = [9, 10, 11, 12, 13, 32] + (
                [28, 29, 30, 31, 0x85, 0xa0] if o.kind == 'str' else [])
        else:
            cs = S.str_seq(chars).unit_vals()
        vals = o.unit_vals()
        if left:
            while vals and cur().branch(disj([eq(vals[0], c) for c in cs])):
                vals = vals[1:]
        if right:
            while vals and cur().branch(disj([eq(vals[-1], c)
                                              for c in cs])):
                vals = vals[:-1]
        return S.simplify_str(Seq.units(o.kind, vals))
    raise Unsupported('strip of symbolic text')


@seqm
def s_replace(I, o, x, y, *a):
    if (isinstance(o, str) or o.is_concrete()):
        return native_call(I, o, 'replace', (x, y) + a, {})
    xn, yn = to_native(I, x), to_native(I, y)
    if xn == yn:
        return o
    return S.app_bytes('replace', (o, x, y), None, o.kind)


@seqm
def s_split(I, o, *a, **k):
    if isinstance(o, str) or o.is_concrete():
        return native_call(I, o, 'split', a, k)
    sep = a[0] if a else k.get('sep')
    limit = a[1] if len(a) > 1 else k.get('maxsplit', -1)
    if sep is None or type(limit) is not int:
        raise Unsupported('split of symbolic text')
    s_ = S.str_seq(sep)
    if not (s_.is_concrete() and len(s_.unit_vals()) == 1):
        raise Unsupported('split of symbolic text')
    c = s_.unit_vals()[0]
    parts, cur_ = [], []
    for g in Seq(o.kind, o.segs).normalize().segs:
        if limit >= 0 and len(parts) >= limit:
            cur_.append(g)
        elif isinstance(g, S.U):
            vals = list(g.vals)
            for j, x in enumerate(vals):
                if not (limit >= 0 and len(parts) >= limit) \
                        and cur().branch(eq(x, c)):
                    parts.append(cur_)
                    cur_ = []
                else:
                    cur_.append(S.U((x,)))
        elif isinstance(g, S.A) and (c in g.base.without
                                     or c > g.base.maxchar):
            cur_.append(g)
        else:
            raise Unsupported('split of symbolic text')
    parts.append(cur_)
    return Seq.units('list', [S.simplify_str(Seq(o.kind, x).normalize())
                              if o.kind == 'str' else
                              Seq(o.kind, x).normalize() for x in parts])


@seqm
def s_splitlines(I, o, *a, **k):
    if isinstance(o, str) or o.is_concrete():
        return native_call(I, o, 'splitlines', a, k)
    raise Unsupported('splitlines of symbolic text')


def _just(name, left):
    def f(I, o, w, fill=' '):
        if isinstance(o, str) or o.is_concrete():
            return native_call(I, o, name, [w, fill], {})
        n = o.length()
        pad = sub(w, n)
        p = I.repeat(S.str_seq(fill), pad) if not isinstance(fill, Seq) \
            else I.repeat(fill, pad)
        x, y = (o, p) if left else (p, o)
        r = Seq(o.kind, S.str_seq(x).segs + S.str_seq(y).segs)
        return r.normalize()
    return f


SEQ_METHODS['ljust'] = _just('ljust', True)
SEQ_METHODS['rjust'] = _just('rjust', False)


@seqm
def s_zfill(I, o, w):
    if isinstance(o, str):
        return o.zfill(w)
    return _just('rjust', False)(I, o, w, '0')


@seqm
def s_isdigit(I, o):
    if isinstance(o, str) or o.is_concrete():
        return native_call(I, o, 'isdigit', [], {})
    raise Unsupported('isdigit')


_LISTM = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse',
          'sort', 'copy', 'index', 'count'}
_TEXTM = {'index', 'count', 'find', 'startswith', 'endswith', 'join',
          'upper', 'lower', 'strip', 'rstrip', 'lstrip', 'replace', 'split',
          'splitlines', 'ljust', 'rjust', 'zfill', 'isdigit'}
KIND_METHODS = {
    'list': _LISTM,
    'str': _TEXTM | {'encode', 'format'},
    'bytes': _TEXTM | {'decode', 'hex'},
    'bytearray': _TEXTM | _LISTM | {'decode', 'hex'},
}
KIND_METHODS['bytearray'] = KIND_METHODS['bytearray'] - {'sort'}


DICT_METHODS = {}


def dictm(f):
    DICT_METHODS[f.__name__[2:]] = f
    return f


@dictm
def d_get(I, d, k, default=None):
    i = d.find(k)
    return default if i is None else d.vals[i]


@dictm
def d_items(I, d):
    return Seq.units('list', d.items())


@dictm
def d_keys(I, d):
    return Seq.units('list', d.keys_)


@dictm
def d_values(I, d):
    return Seq.units('list', d.vals)


d_iteritems = DICT_METHODS['iteritems'] = d_items


@dictm
def d_pop(I, d, k, *default):
    i = d.find(k)
    if i is None:
        if default:
            return default[0]
        raise_exc('KeyError', k)
    return d.delete(k)


@dictm
def d_setdefault(I, d, k, default=None):
    i = d.find(k)
    if i is None:
        d.set(k, default)
        return default
    return d.vals[i]


@dictm
def d_update(I, d, *a, **k):
    for x in a:
        for kk, vv in call_type(I, 'dict', [x], {}).items():
            d.set(kk, vv)
    for kk, vv in k.items():
        d.set(kk, vv)


@dictm
def d_copy(I, d):
    return DictV(d.items())


@dictm
def d_clear(I, d):
    d.__init__()


SET_METHODS = {
    'add': lambda I, s, x: s.d.set(x, None),
    'discard': lambda I, s, x: s.d.delete(x) if s.has(x) else None,
    'remove': lambda I, s, x: s.d.delete(x),
    'update': lambda I, s, *a: [s.d.set(x, None) for y in a
                                for x in I.to_list(y)] and None,
    'union': lambda I, s, *a: SetV(s.items() + [x for y in a
                                                for x in I.to_list(y)]),
    'intersection': lambda I, s, t: SetV(
        [x for x in s.items() if I.truth(I.contains(t, x))]),
    'difference': lambda I, s, t: SetV(
        [x for x in s.items() if not I.truth(I.contains(t, x))]),
    'copy': lambda I, s: SetV(s.items()),
    'issubset': lambda I, s, t: all(I.truth(I.contains(t, x))
                                    for x in s.items()),
    'pop': lambda I, s: s.d.delete(s.items()[0]),
}


# -------------------------------------------------------- library modules

def model(name, text=None):
    def d(f):
        def load(I):
            m = ModuleV(name)
            m.ext = True
            f(I, m.ns)
            return m
        MODELS[name] = load
        if text:
            TRUSTED[name] = text
        return f
    return d


def fn(name, f):
    return Builtin(name, lambda I, a, k: f(I, *a, **k))


@model('__future__')
def _future(I, ns):
    for n in ('absolute_import', 'print_function', 'unicode_literals',
              'division'):
        ns[n] = None


class Log2(object):
    """math.log(x, 2) of 1 <= x <= 2**26"""

    def __init__(self, x):
        self.x = x

    def floor(self):
        return sub(S.bit_length(self.x), 1)


def quotient(a, c):
    """a // c, c > 0"""
    a, c = promote(a), promote(c)
    if isinstance(c, int):
        return arith('//', a, c)
    p = cur()

    def build(name, args):
        q = core.fresh_int(name, bounds(a)[0] and None)
        qc = core.z(arith('*', q, c))
        p.add(core.z3.And(qc <= core.z(a), core.z(a) < qc + core.z(c)))
        return q
    for k in (0, 1):
        if p.prove(conj([compare('<=', arith('*', c, k), a),
                         compare('<', a, arith('*', c, k + 1))])):
            return k
    r = S.app('quotient', (a, c), build)
    p.add(core.z3.Implies(core.z(a) >= 0, core.z(r) >= 0))
    return r


@model('math')
def _m_math(I, ns):
    def floor(I, x):
        if isinstance(x, Log2):
            return x.floor()
        x = promote(x)
        if isinstance(x, (int, float)):
            return _math.floor(x)
        if isinstance(x, SReal):
            return quotient(x.num, x.den)
        if is_int(x):
            return x
        raise_exc('TypeError', 'must be real number')

    def ceil(I, x):
        x = promote(x)
        if isinstance(x, (int, float)):
            return _math.ceil(x)
        if isinstance(x, SReal):
            return quotient(add(x.num, sub(x.den, 1)), x.den)
        if is_int(x):
            return x
        raise_exc('TypeError', 'must be real number')

    def log(I, x, base=None):
        if isinstance(x, (int, float)) and isinstance(
                base, (int, float, type(None))):
            try:
                return _math.log(x) if base is None else _math.log(x, base)
            except ValueError as e:
                raise_exc('ValueError', str(e))
        x = promote(x)
        if is_int(x) and base == 2 and cur().prove(
                conj([compare('<=', 1, x), compare('<=', x, 2 ** 26)])):
            I.trust('floor(math.log(x, 2)) is x.bit_length() - 1 for '
                    '1 <= x <= 2**26 (checked natively in C12)')
            return Log2(x)
        raise Unsupported('floating point logarithm')
    ns['floor'] = fn('floor', floor)
    ns['ceil'] = fn('ceil', ceil)
    ns['log'] = fn('log', log)
    ns['sqrt'] = fn('sqrt', lambda I, x: _math.sqrt(x))


@model('warnings')
def _m_warnings(I, ns):
    ns['warn'] = fn('warn', lambda I, *a, **k: None)


# regular expressions for any one line ending
LINE_ENDINGS = (b'\r\n|\r|\n', b'\r\n|\n|\r', b'\r\n|[\r\n]',
                b'\r\n|[\n\r]', b'\r\n?|\n', b'\n|\r\n?',
                b'(?:\r\n|\r|\n)')


@model('magic', 'from_buffer returns some text')
def _m_magic(I, ns):
    ns['from_buffer'] = fn('from_buffer', lambda I, data, mime=False:
                           'application/octet-stream')


class Regex(NativeObj):
    typename = 're.Pattern'

    def __init__(self, rx):
        self.rx = rx
        self.pattern = rx.pattern

    def _run(self, I, op, a):
        b = [to_native(I, x) for x in a]
        r = getattr(self.rx, op)(*b)
        if r is None:
            return None
        if isinstance(r, (str, bytes, list)):
            return from_native(r)
        return Match(r)

    def m_match(self, I, *a):
        return self._run(I, 'match', a)

    def m_search(self, I, *a):
        return self._run(I, 'search', a)

    def m_sub(self, I, *a):
        if self.pattern in LINE_ENDINGS and len(a) == 2 \
                and isinstance(a[0], Seq) and a[0].is_concrete() \
                and a[0].native() == b'\r\n' and isinstance(a[1], Seq) \
                and a[1].kind in BYTE_KINDS and not a[1].is_concrete():
            from . import specs
            return specs.crlf(I, a[1])
        return self._run(I, 'sub', a)

    def m_split(self, I, *a):
        return self._run(I, 'split', a)

    def m_findall(self, I, *a):
        return self._run(I, 'findall', a)


class Match(NativeObj):
    typename = 're.Match'

    def __init__(self, m):
        self.mo = m

    def m_group(self, I, *a):
        return from_native(self.mo.group(*a))

    def m_groups(self, I, *a):
        return from_native(self.mo.groups(*a))

    def m_start(self, I, *a):
        return self.mo.start(*a)

    def m_end(self, I, *a):
        return self.mo.end(*a)

    def m_groupdict(self, I):
        return DictV([(k, from_native(v))
                      for k, v in self.mo.groupdict().items()])


@model('re')
def _m_re(I, ns):
    import re as _re

    def comp(I, pat, flags=0):
        return Regex(_re.compile(to_native(I, pat), flags))
    ns['compile'] = fn('compile', comp)
    for op in ('match', 'search', 'sub', 'split', 'findall'):
        ns[op] = fn(op, lambda I, pat, *a, op=op:
                    comp(I, pat)._run(I, op, a))
    for n in ('M', 'I', 'S', 'MULTILINE', 'IGNORECASE', 'DOTALL', 'X',
              'VERBOSE', 'U', 'UNICODE'):
        ns[n] = int(getattr(_re, n))


class Files(object):
    """the files of one run: name -> contents"""

    def __init__(self):
        self.files = {}

    def open(self, I, name, mode='r', *a, **k):
        if not isinstance(name, str) or not isinstance(mode, str):
            raise Unsupported('open of a symbolic name')
        text = 'b' not in mode
        if name not in self.files:
            if mode[0] == 'r':
                raise_exc('FileNotFoundError', name)
            if mode[0] not in 'wa':
                raise Unsupported('open mode %s' % mode)
            self.files[name] = FileData()
        f = self.files[name]
        if mode[0] == 'w':
            f.data = S.Seq('bytes', [])
        return FileV(f, mode, text)


class FileData(object):
    data = None

    def __init__(self):
        self.data = S.Seq('bytes', [])


def files():
    p = cur()
    if getattr(p, 'fs', None) is None:
        p.fs = Files()
    return p.fs


def file_text(I, data):
    n = I.native_or_none(data)
    if n is UNK or n is None:
        raise Unsupported('text of a file')
    return bytes(n).decode('utf-8')


@model('os', 'files are octet strings of their own, which nothing else '
       'changes meanwhile; opening to write empties the file; operations do '
       'not fail for reasons outside the program')
def _m_os(I, ns):
    def need(name):
        if not isinstance(name, str):
            raise Unsupported('symbolic file name')
        return files().files

    def unlink(I, name):
        if name not in need(name):
            raise_exc('FileNotFoundError', name)
        del files().files[name]

    def link(I, a, b):
        fs = need(a)
        need(b)
        if a not in fs:
            raise_exc('FileNotFoundError', a)
        if b in fs:
            raise_exc('FileExistsError', b)
        fs[b] = fs[a]

    def chmod(I, name, mode):
        if name not in need(name):
            raise_exc('FileNotFoundError', name)

    def listdir(I, name):
        need(name)
        return S.Seq.units('list', [x[len(name) + 1:] for x in files().files
                                    if x.startswith(name + '/')])

    def exists(I, name):
        return name in need(name)

    def kill(I, *a):
        raise Unsupported('kill')
    ns['linesep'] = '\n'
    ns['environ'] = DictV()
    ns['name'] = 'posix'
    ns['sep'] = '/'
    ns['extsep'] = '.'
    for f in (unlink, link, chmod, listdir, kill):
        ns[f.__name__] = fn(f.__name__, f)
    ns['remove'] = ns['unlink']
    ns['getpid'] = fn('getpid', lambda I: 4242)
    m = ModuleV('os.path')
    m.ext = True
    ns['path'] = m
    import os.path as op
    for n in ('dirname', 'basename', 'abspath', 'join', 'split', 'splitext'):
        def f(I, *a, g=getattr(op, n)):
            if not all(isinstance(x, str) for x in a):
                raise Unsupported('symbolic file name')
            return g(*a)
        m.ns[n] = fn(n, f)
    m.ns['expanduser'] = fn('expanduser', lambda I, x: '/home/user' + x[1:]
                            if x[:1] == '~' else x)
    m.ns['exists'] = fn('exists', exists)
    m.ns['isfile'] = m.ns['exists']
    m.ns['extsep'] = '.'
    m.ns['sep'] = '/'


@model('platform')
def _m_platform(I, ns):
    ns['node'] = fn('node', lambda I: 'host')


@model('signal')
def _m_signal(I, ns):
    ns['SIG_DFL'] = 0


@model('atexit')
def _m_atexit(I, ns):
    ns['register'] = fn('register', lambda I, f: f)


class RLockV(NativeObj):
    typename = 'threading.RLock'
    count = 0

    def m_acquire(self, I, *a, **k):
        self.count += 1
        return True

    def m_release(self, I):
        if not self.count:
            raise_exc('RuntimeError', 'cannot release un-acquired lock')
        self.count -= 1

    def m___enter__(self, I):
        return self.m_acquire(I)

    def m___exit__(self, I, *a):
        self.m_release(I)


@model('threading', 'one thread')
def _m_threading(I, ns):
    ns['RLock'] = fn('RLock', lambda I: RLockV())
    ns['Lock'] = fn('Lock', lambda I: RLockV())


@model('sys')
def _m_sys(I, ns):
    ns['version_info'] = (3, 9, 18, 'final', 0)
    ns['maxsize'] = 2 ** 63 - 1
    ns['byteorder'] = 'little'
    ns['platform'] = 'linux'


@model('six')
def _m_six(I, ns):
    ns['text_type'] = TYPES['str']
    ns['string_types'] = (TYPES['str'],)
    ns['integer_types'] = (TYPES['int'],)
    ns['binary_type'] = TYPES['bytes']
    ns['PY3'] = True


@model('collections')
def _m_collections(I, ns):
    ns['OrderedDict'] = TYPES['dict']

    def dd(I, f=None, *a, **k):
        d = call_type(I, 'dict', a, k)
        if f is not None:
            d.cls = {'default_factory': f}
        return d
    ns['defaultdict'] = fn('defaultdict', dd)

    def namedtuple(I, name, fields, **kw):
        if isinstance(fields, str):
            fields = fields.replace(',', ' ').split()
        else:
            fields = I.to_list(fields)

        def init(I, a, k):
            self, vals = a[0], list(a[1:])
            for i, f_ in enumerate(fields):
                self.attrs[f_] = vals[i] if i < len(vals) else k[f_]
        ns2 = {'__init__': Builtin('__init__', init),
               '__iter__': Builtin('__iter__', lambda I, a, k: ListIter(
                   [a[0].attrs[f_] for f_ in fields])),
               '_fields': tuple(fields)}
        return I.make_class(name, [], ns2, None)
    ns['namedtuple'] = fn('namedtuple', namedtuple)
    I.exec_source(DEQUE, ns)


DEQUE = '''
class deque:
    def __init__(self, items=()):
        self._items = list(items)
    def append(self, x):
        self._items.append(x)
    def appendleft(self, x):
        self._items.insert(0, x)
    def extend(self, items):
        self._items.extend(items)
    def pop(self):
        return self._items.pop()
    def popleft(self):
        return self._items.pop(0)
    def __len__(self):
        return len(self._items)
    def __iter__(self):
        return iter(self._items)
    def __getitem__(self, i):
        return self._items[i]
'''


@model('functools')
def _m_functools(I, ns):
    def partial(I, f, *a, **k):
        def call(I, a2, k2):
            kk = dict(k)
            kk.update(k2)
            return I.call(f, list(a) + list(a2), kk)
        return Builtin('partial', call)
    ns['partial'] = fn('partial', partial)

    def reduce(I, f, it, *init):
        items = I.to_list(it)
        if init:
            acc = init[0]
        else:
            acc, items = items[0], items[1:]
        for x in items:
            acc = I.call(f, [acc, x], {})
        return acc
    ns['reduce'] = fn('reduce', reduce)
    ns['wraps'] = fn('wraps', lambda I, f: fn('deco', lambda I, g: g))


@model('itertools')
def _m_itertools(I, ns):
    def chain(I, *a):
        out = []
        for x in a:
            out.extend(I.to_list(x))
        return ListIter(out)
    ns['chain'] = fn('chain', chain)


@model('operator')
def _m_operator(I, ns):
    def attrgetter(I, name):
        return fn('attrgetter', lambda I, o: I.getattr(o, name))

    def itemgetter(I, i):
        return fn('itemgetter', lambda I, o: I.index(o, i))
    ns['attrgetter'] = fn('attrgetter', attrgetter)
    ns['itemgetter'] = fn('itemgetter', itemgetter)
    for nm, op in (('add', '+'), ('xor', '^'), ('and_', '&'), ('or_', '|')):
        ns[nm] = fn(nm, lambda I, x, y, op=op: I.binop(op, x, y))


@model('zope.interface')
def _m_zope(I, ns):
    ident = fn('implementer', lambda I, *a: fn('deco', lambda I, c: c))
    ns['implementer'] = ident
    ns['provider'] = ident
    ns['Interface'] = I.make_class('Interface', [], {}, 'zope.interface')
    ns['Attribute'] = fn('Attribute', lambda I, *a, **k: None)


# -- hashing

HASHES = {'MD5': 16, 'SHA': 20, 'RIPEMD': 20, 'SHA224': 28, 'SHA256': 32,
          'SHA384': 48, 'SHA512': 64}


class HashObj(NativeObj):
    typename = 'hash'

    def __init__(self, alg, data=None):
        self.alg = alg
        self.data = Seq('bytes')
        self.attrs = {'digest_size': HASHES[alg], 'name': alg}
        if data is not None:
            self._add(data)

    def _add(self, data):
        if not (isinstance(data, Seq) and data.kind in BYTE_KINDS):
            raise_exc('TypeError', 'object supporting the buffer API '
                      'required')
        self.data = Seq('bytes', self.data.segs + data.segs).normalize()

    def m_update(self, I, data):
        self._add(data)

    def m_digest(self, I):
        return S.app_bytes('H_' + self.alg, (self.data,), HASHES[self.alg])

    def m_hexdigest(self, I):
        return hex_of(self.m_digest(I), False)

    def m_copy(self, I):
        h = HashObj(self.alg)
        h.data = self.data.copy()
        return h

    def eq(self, o, goal):
        return self is o


def _hash_module(alg):
    def f(I, ns):
        def new(I, data=None):
            if data is not None and is_int(data):
                raise_exc('TypeError', 'buffer required')
            return HashObj(alg, data)
        ns['new'] = fn('new', new)
        ns['digest_size'] = HASHES[alg]
    model('Crypto.Hash.' + alg, 'digest is an unspecified function of the '
          'concatenation of the updates (%d octets)' % HASHES[alg])(f)


for _a in HASHES:
    _hash_module(_a)
for _n, _a in (('SHA1', 'SHA'), ('RIPEMD160', 'RIPEMD')):
    HASHES[_n] = HASHES[_a]


@model('hashlib', 'as Crypto.Hash')
def _m_hashlib(I, ns):
    for n, a_ in (('md5', 'MD5'), ('sha1', 'SHA'), ('sha224', 'SHA224'),
                  ('sha256', 'SHA256'), ('sha384', 'SHA384'),
                  ('sha512', 'SHA512')):
        ns[n] = fn(n, lambda I, data=None, a_=a_: HashObj(a_, data))

    def new(I, name, data=None):
        m = {'md5': 'MD5', 'sha1': 'SHA', 'ripemd160': 'RIPEMD',
             'sha224': 'SHA224', 'sha256': 'SHA256', 'sha384': 'SHA384',
             'sha512': 'SHA512'}
        if name not in m:
            raise_exc('ValueError', 'unsupported hash type')
        return HashObj(m[name], data)
    ns['new'] = fn('new', new)


# -- randomness

@model('Crypto.Random', 'every octet string / integer in range is possible')
def _m_random(I, ns):
    class RNG(NativeObj):
        def m_read(self, I, n):
            return rnd_bytes(I, n)
    ns['new'] = fn('new', lambda I: RNG())
    ns['get_random_bytes'] = fn('get_random_bytes', rnd_bytes)
    ns['random'] = I.load('Crypto.Random.random')


def rnd_bytes(I, n):
    n = promote(n)
    p = cur()
    if isinstance(n, int) and n <= 24:
        return Seq.units('bytes', [fresh_int('rnd', 0, 255)
                                   for _ in range(n)])
    nm = p.fresh_name('rnd')
    return Seq('bytes', [S.A(S.Base(nm, n), 0, n)])


@model('Crypto.Random.random')
def _m_random2(I, ns):
    def randint(I, lo, hi):
        v = fresh_int('randint')
        cur().assume(conj([compare('<=', lo, v), compare('<=', v, hi)]))
        return v

    class SR(NativeObj):
        def m_randint(self, I, lo, hi):
            return randint(I, lo, hi)
    ns['StrongRandom'] = fn('StrongRandom', lambda I: SR())
    ns['randint'] = fn('randint', randint)


# -- block cipher modules: uninterpreted, inverse axiom only

class CipherModule(NativeObj):
    """A cipher module: new(key, mode, IV=..., segment_size=...)"""
    typename = 'module'

    def __init__(self, name, block, keys):
        self.name = name
        self.attrs = {'block_size': block, 'key_size': keys,
                      '__name__': 'Crypto.Cipher.' + name,
                      'MODE_ECB': 1, 'MODE_CBC': 2, 'MODE_CFB': 3,
                      'MODE_PGP': 4, 'MODE_OFB': 5, 'MODE_CTR': 6,
                      'MODE_OPENPGP': 7}

    def m_new(self, I, key, mode=1, IV=None, segment_size=0, counter=None,
              **kw):
        for kk in kw:
            raise_exc('TypeError', "'%s' is an invalid keyword argument"
                      % kk)
        p = cur()
        if not isinstance(key, Seq) or key.kind not in BYTE_KINDS:
            raise_exc('TypeError', 'key must be octets')
        if not p.branch(core.disj([eq(key.length(), n)
                                   for n in self.attrs['key_size']])):
            raise_exc('ValueError', 'wrong key length')
        if mode in (2, 3, 5, 7) and not (
                isinstance(IV, Seq) and p.branch(eq(
                    IV.length(), self.attrs['block_size']))):
            raise_exc('ValueError', 'IV must be %d bytes long'
                      % self.attrs['block_size'])
        return CipherObj(self.name, self.attrs['block_size'], key, mode, IV,
                         segment_size)


class CipherObj(NativeObj):
    """Trusted model of a stateful cipher object: the i-th output is a
    function of (algorithm, key, mode, iv, everything fed so far); decryption
    inverts encryption.  For CFB/OFB the transformation acts octet-wise on
    the stream, so it distributes over concatenation."""
    typename = 'cipher'

    def __init__(self, name, block, key, mode, iv, segment_size):
        self.name = name
        self.block = block
        self.key = key.copy('bytes') if isinstance(key, Seq) else key
        self.mode = mode
        self.iv = iv.copy('bytes') if isinstance(iv, Seq) else iv
        self.seg = segment_size
        self.hist = Seq('bytes')        # ciphertext so far
        self.plain = Seq('bytes')       # plaintext so far
        self.attrs = {'block_size': block, 'IV': iv, 'mode': mode}

    def params(self):
        return (self.name, self.key,
                self.mode, self.iv if self.iv is not None else 0,
                self.seg or 0)

    def check_len(self, data):
        unit = 1
        if self.mode in (1, 2):
            unit = self.block
        elif self.mode == 3:
            unit = (self.seg or 8) // 8
        if unit > 1:
            n = data.length()
            r = arith('%', n, unit)
            if cur().branch(neg(eq(r, 0))):
                raise_exc('ValueError', 'Input strings must be a multiple '
                          'of the segment size %d in length' % unit)

    def m_encrypt(self, I, data):
        return self.run(I, data, 'E', 'D')

    def m_decrypt(self, I, data):
        return self.run(I, data, 'D', 'E')

    def m_sync(self, I):
        if 'sync' not in self.attrs:
            raise_exc('AttributeError', 'sync')
        self.hist = Seq('bytes', self.hist.segs + [S.U((-1,))])

    def run(self, I, data, d, inv):
        if not (isinstance(data, Seq) and data.kind in BYTE_KINDS):
            raise_exc('TypeError', 'buffer required')
        self.check_len(data)
        data = data.copy('bytes').normalize()
        if self.mode == 3:
            return self.stream(data, d, inv)
        out = Seq('bytes')
        p = cur()
        for g in split_inverse(data, inv, self):
            if isinstance(g, tuple):
                # the inverse applied to a result of the forward direction
                plain = g[1]
                out.segs = out.segs + plain.segs
                self.note(d, plain if d == 'E' else g[0])
                continue
            one = Seq('bytes', [g])
            r = S.app_bytes('cipher' + d, self.params() + (
                self.hist.copy(), one), one.length())
            out.segs = out.segs + r.segs
            self.note(d, r if d == 'E' else one)
        return out.normalize()

    def stream(self, data, d, inv):
        """CFB: octet n of the output depends on the octets up to n only, so
        the output for x is a prefix of the output for x + y; the two
        directions are inverses."""
        e = d == 'E'
        src = Seq('bytes', (self.plain if e else self.hist).segs
                  + data.segs).normalize()
        done = (self.plain if e else self.hist).length()
        total = src.length()
        p = cur()
        # the longest prefix of the input that is output of the inverse
        pos = 0
        known = Seq('bytes')
        for g in src.segs:
            o = g.base.origin if isinstance(g, S.A) else None
            if not (o and o[0] == 'cfb' + inv
                    and S.args_same(o[1][:-1], self.params())
                    and p.prove(b(eq(g.start, pos)))):
                break
            x = S.slice_seq(o[1][-1], 0, add(pos, g.n))
            if not (isinstance(pos, int) and pos == 0) and not S.args_same(
                    (S.slice_seq(x, 0, pos),), (known,)):
                break
            known = x
            pos = add(pos, g.n)
        rest = core.sub(total, pos)
        if p.prove(b(eq(rest, 0))):
            out = known
        else:
            r = S.app_bytes('cfb' + d, self.params() + (src,), total)
            out = Seq('bytes', known.segs + S.slice_seq(
                r, pos, None).segs).normalize()
        if e:
            self.plain, self.hist = src, out
        else:
            self.hist, self.plain = src, out
        return S.slice_seq(out, done, None).copy('bytes')

    def note(self, d, ct):
        self.hist = Seq('bytes', self.hist.segs + ct.segs).normalize()


def split_inverse(data, inv, c):
    """Split data into segments; those that are exactly the output of the
    inverse operation under the same parameters and history are replaced by
    (segment, original)."""
    out = []
    hist = c.hist.copy()
    for g in data.segs:
        if isinstance(g, S.A) and g.base.origin \
                and g.base.origin[0] == 'cipher' + inv:
            args = g.base.origin[1]
            whole = cur().prove(b(conj([eq(g.start, 0),
                                        eq(g.n, g.base.length)])))
            if whole and S.args_same(args[:-2], c.params()) \
                    and S.args_same((args[-2],), (hist,)):
                out.append((Seq('bytes', [g]), args[-1]))
                hist = Seq('bytes', hist.segs + (
                    [g] if inv == 'E' else args[-1].segs)).normalize()
                continue
            if S.args_same(args[:-2], c.params()) and c.mode == 3 \
                    and S.args_same((args[-2],), (hist,)) \
                    and cur().prove(b(eq(g.start, 0))):
                # a prefix of the output: the same prefix of the input
                pre = S.slice_seq(args[-1], 0, g.n)
                out.append((Seq('bytes', [g]), pre))
                hist = Seq('bytes', hist.segs + [g]).normalize()
                continue
        out.append(g)
        hist = Seq('bytes', hist.segs + [g]).normalize()
    return out


CIPHERS = {'AES': (16, (16, 24, 32)), 'Blowfish': (8, tuple(range(4, 57))),
           'DES3': (8, (16, 24)), 'CAST': (8, tuple(range(5, 17)))}


def _cipher_model(name):
    def load(I):
        return CipherModule(name, *CIPHERS[name])
    MODELS['Crypto.Cipher.' + name] = load
    TRUSTED['Crypto.Cipher.' + name] = (
        'output is an unspecified function of key, mode, IV and stream so '
        'far; decryption inverts encryption; CFB preserves length and is '
        'prefix-compatible')


for _c in CIPHERS:
    _cipher_model(_c)


@model('Crypto.Cipher.blockalgo')
def _m_blockalgo(I, ns):
    for i, n in enumerate(('ECB', 'CBC', 'CFB', 'PGP', 'OFB', 'CTR',
                           'OPENPGP')):
        ns['MODE_' + n] = i + 1
    ns['BlockAlgo'] = ExtV('Crypto.Cipher.blockalgo.BlockAlgo')


@model('Crypto.Util.number')
def _m_number(I, ns):
    def b2l(I, s):
        return S.seq_ival(s)

    def l2b(I, n, blocksize=0):
        n = promote(n)
        blocksize = promote(blocksize)
        if isinstance(n, int) and isinstance(blocksize, int):
            k = max(1, (n.bit_length() + 7) // 8)
            if blocksize > 0:
                k = -(-k // blocksize) * blocksize
            return S.from_native(n.to_bytes(k, 'big'))
        if cur().branch(compare('>', blocksize, 0)):
            # to a multiple of the block size
            if S.fits(n, blocksize) or not cur().branch(compare(
                    '>', S.bit_length(n), arith('*', blocksize, 8))):
                return S.be_seq(n, blocksize)
            # the exact number of blocks (at least two) is left open
            k = fresh_int('blocks', 0)
            cur().assume(compare('>=', k, arith('*', blocksize, 2)))
            cur().assume(compare('>=', arith('*', k, 8), S.bit_length(n)))
            return S.be_seq(n, k)
        if cur().branch(eq(n, 0)):
            return S.from_native(b'\x00')
        k = arith('//', add(S.bit_length(n), 7), 8)
        return Seq('bytes', [S.BE(n, k)])
    ns['bytes_to_long'] = fn('bytes_to_long', b2l)
    ns['long_to_bytes'] = fn('long_to_bytes', l2b)
    ns['GCD'] = fn('GCD', lambda I, x, y: S.app_int('gcd', (x, y), 0))


# -- compression

class ZComp(NativeObj):
    """Everything it returns, in order, is one stream of unknown octets; what
    is returned when is arbitrary."""
    typename = 'zlib.Compress'

    def __init__(self, kind, level, wbits=15):
        self.kind, self.level, self.wbits = kind, level, wbits
        self.data = Seq('bytes')
        self.done = False
        p = cur()
        name = p.fresh_name('compressed')
        self.head, self.tail = (2, 4) if kind == 'zlib' and wbits == 15 \
            else (0, 0)
        n = fresh_int('len_' + name, self.head + self.tail + 1)
        self.base = S.Base(name, n, 'byte', origin=('compressed', self))
        self.pos = 0

    def m_compress(self, I, data):
        if self.done:
            raise_exc('ValueError', 'compressor flushed')
        if not (isinstance(data, Seq) and data.kind in BYTE_KINDS):
            raise_exc('TypeError', 'a bytes-like object is required')
        self.data = Seq('bytes', self.data.segs + data.segs).normalize()
        p = cur()
        m = fresh_int('emit', 0)
        p.assume(compare('<=', add(self.pos, m), self.base.length))
        r = Seq('bytes', [S.A(self.base, self.pos, m)])
        self.pos = add(self.pos, m)
        return r

    def m_flush(self, I, *a):
        if self.done:
            raise_exc('ValueError', 'compressor flushed')
        self.done = True
        return Seq('bytes', [S.A(self.base, self.pos, core.sub(
            self.base.length, self.pos))])


class ZDecomp(NativeObj):
    """What it returned so far is an arbitrary prefix of the original data
    while only a part of the stream was fed, and all of it afterwards."""
    typename = 'zlib.Decompress'

    def __init__(self, kind, wbits=15):
        self.kind, self.wbits = kind, wbits
        self.data = Seq('bytes')
        self.out = 0
        self.bad = False
        self.all = False

    def m_decompress(self, I, data, *a):
        if not (isinstance(data, Seq) and data.kind in BYTE_KINDS):
            raise_exc('TypeError', 'a bytes-like object is required')
        self.data = Seq('bytes', self.data.segs + data.segs).normalize()
        segs = [g for g in self.data.segs
                if not cur().prove(b(eq(g.n, 0)))]
        p = cur()
        if not segs:
            return Seq('bytes')
        start = 0
        if self.kind == 'zlib' and self.wbits == 15 \
                and isinstance(segs[0], S.U) \
                and list(segs[0].vals) == [0x78, 0x9c]:
            if len(segs) == 1:
                return Seq('bytes')
            segs = segs[1:]
            start = 2
        g = segs[0]
        o = g.base.origin if isinstance(g, S.A) else None
        if len(segs) != 1 or not (o and o[0] == 'compressed') \
                or o[1].kind != self.kind or (
                    o[1].wbits != self.wbits) or not o[1].done \
                or not p.prove(b(eq(g.start, start))):
            self.bad = True
            return Seq('bytes')
        if self.bad:
            return Seq('bytes')
        z_ = o[1]
        full = z_.data
        if p.branch(compare('>=', add(g.start, g.n), core.sub(
                z_.base.length, z_.tail))):
            upto = full.length()
            self.all = True
        else:
            upto = fresh_int('got', 0)
            p.assume(compare('<=', self.out, upto))
            p.assume(compare('<=', upto, full.length()))
        r = S.slice_seq(full, self.out, upto)
        self.out = upto
        return r.copy('bytes')

    def m_flush(self, I, *a):
        if not self.bad:
            return Seq('bytes')
        return S.app_bytes('inflate_' + self.kind, (self.wbits, self.data),
                           None)


class BZDecomp(ZDecomp):
    typename = 'bz2.BZ2Decompressor'
    eof = False

    def m_decompress(self, I, data, *a):
        if self.eof:
            raise_exc('EOFError', 'end of stream was already found')
        r = ZDecomp.m_decompress(self, I, data, *a)
        self.eof = self.all
        return r

    def getattr_(self, name):
        if name == 'flush':
            raise_exc('AttributeError', name)


@model('zlib', 'decompressing the complete output of a compressor with the '
       'same container format, in any pieces, returns the concatenated input; '
       'a zlib stream is two header octets, the deflate data and four '
       'checksum octets, and any header may stand before the deflate data')
def _m_zlib(I, ns):
    def compressobj(I, level=-1, method=8, wbits=15, *a, **k):
        if level is None:
            raise_exc('TypeError', 'an integer is required')
        return ZComp('zlib', level, wbits)
    ns['compressobj'] = fn('compressobj', compressobj)
    ns['decompressobj'] = fn('decompressobj', lambda I, wbits=15:
                             ZDecomp('zlib', wbits))
    ns['MAX_WBITS'] = 15
    ns['DEFLATED'] = 8
    ns['Z_DEFAULT_COMPRESSION'] = -1


@model('bz2', 'as zlib')
def _m_bz2(I, ns):
    def comp(I, level=9):
        if level is None:
            raise_exc('TypeError', 'an integer is required')
        return ZComp('bz2', level)
    ns['BZ2Compressor'] = fn('BZ2Compressor', comp)
    ns['BZ2Decompressor'] = fn('BZ2Decompressor',
                               lambda I: BZDecomp('bz2'))


@model('weakref', 'the object referred to is still alive')
def _m_weakref(I, ns):
    ns['ref'] = fn('ref', lambda I, o: fn('weakref', lambda I2: o))


@model('base64', 'decoding inverts encoding; encoding maps n octets to '
       '4*ceil(n/3) characters of the base64 alphabet')
def _m_base64(I, ns):
    def enc(I, s):
        n = arith('*', arith('//', add(s.length(), 2), 3), 4)
        r = S.app_bytes('b64encode', (s.copy('bytes'),), n)
        for g in r.segs:
            if isinstance(g, S.A):
                g.base.ascii = True
        return r

    def dec(I, s, *a, **k):
        if isinstance(s, str):
            s = S.from_native(s.encode('latin-1'))
        a_ = S.whole_origin(s, 'b64encode')
        if a_ is not None:
            return a_[0].copy('bytes')
        if s.is_concrete():
            import base64
            import binascii
            try:
                return S.from_native(base64.b64decode(
                    bytes(s.unit_vals())))
            except binascii.Error as e:
                raise_exc('ValueError', str(e))
        return S.app_bytes('b64decode', (s.copy('bytes'),), None)
    ns['b64encode'] = fn('b64encode', enc)
    ns['b64decode'] = fn('b64decode', dec)
    ns['standard_b64encode'] = ns['b64encode']
    ns['standard_b64decode'] = ns['b64decode']


# -- public key primitives: unspecified functions

@model('Crypto.Signature.PKCS1_v1_5', 'RSA signing and verification are '
       'unspecified functions of (key, hash); a signature made with a key '
       'has the length of the modulus and verifies with the public key of '
       'the same modulus and exponent')
def _m_pkcs1sig(I, ns):
    class Sig(NativeObj):
        def __init__(self, key):
            self.key = key

        def octets(self):
            return arith('//', add(S.bit_length(self.key.vals[0]), 7), 8)

        def m_sign(self, I, h):
            if len(self.key.vals) < 3:
                raise_exc('TypeError', 'No private key')
            return S.app_bytes('rsasign', tuple(self.key.vals[:2]) + (
                h.alg, h.data), self.octets())

        def m_verify(self, I, h, s):
            want = tuple(self.key.vals[:2]) + (h.alg, h.data)
            if not cur().branch(eq(s.length(), self.octets())):
                return False
            a = S.whole_origin(s, 'rsasign')
            if a is not None and S.args_same(a, want):
                return True
            for args, sig in cur().apps.get('rsasign', []):
                # also the same value, of the same length
                if S.args_same(args, want):
                    c = eq(S.seq_ival(s), S.seq_ival(S.Seq(
                        'bytes', [S.A(sig, 0, sig.length)])))
                    if c is True or (c is not False and
                                     cur().prove(b(c))):
                        return True
            return S.app_bool('rsaverify', want + (Seq('bytes', s.segs),))
    ns['new'] = fn('new', lambda I, key: Sig(key))
    ns['EMSA_PKCS1_V1_5_ENCODE'] = fn(
        'EMSA_PKCS1_V1_5_ENCODE', lambda I, h, n: S.app_bytes(
            'emsa', (h.alg, h.data, n), None))


for _n in ('RSA', 'DSA', 'ElGamal'):
    def _pk(I, ns, _n=_n):
        class Ctor(NativeObj):
            typename = _n
        ns['construct'] = fn('construct', lambda I, vals:
                             PKObj(_n, vals))
        ns['alg'] = _n
    model('Crypto.PublicKey.' + _n)(_pk)


def known_plain():
    p = cur()
    if not hasattr(p, 'known_plain'):
        p.known_plain = []
    return p.known_plain


PKCS1_CIPHER = '''
class PKCS115_Cipher:
    def __init__(self, key):
        self._key = key
    def encrypt(self, message):
        return self._key._pkcs1_encrypt(message)
    def decrypt(self, ct, sentinel):
        return self._key._pkcs1_decrypt(ct, sentinel)
def new(key):
    return PKCS115_Cipher(key)
'''


@model('Crypto.Cipher.PKCS1_v1_5', 'encryption to an RSA key (PKCS#1 v1.5) '
       'gives the octets of a number below the modulus, of as many octets; '
       'decryption with the private key of the same modulus and exponent '
       'gives back what was encrypted, and otherwise either the sentinel or '
       'octets that are a function of the ciphertext; ElGamal likewise, with '
       'a secret number in [1, p - 2] as a precondition')
def _m_pkcs1cipher(I, ns):
    I.exec_source(PKCS1_CIPHER, ns)


class PKObj(NativeObj):
    typename = 'key'

    def __init__(self, alg, vals):
        self.alg = alg
        self.vals = vals
        names = {'RSA': ('n', 'e', 'd', 'p', 'q', 'u'),
                 'DSA': ('y', 'g', 'p', 'q', 'x'),
                 'ElGamal': ('p', 'g', 'y', 'x')}[alg]
        self.attrs = dict(zip(names, vals))

    @property
    def name(self):
        return '%s(%s)' % (self.alg, ','.join(S.zkey(v)
                                              for v in self.vals))

    def bits(self):
        return S.bit_length(self.attrs['n' if self.alg == 'RSA' else 'p'])

    def m_size(self, I):
        return sub(self.bits(), 1)

    def public(self):
        return tuple(self.vals[:{'RSA': 2, 'DSA': 4, 'ElGamal': 3}[
            self.alg]])

    def octets(self):
        return arith('//', add(self.bits(), 7), 8)

    # PKCS#1 v1.5 encryption with RSA: the octets are those of a number
    # below the modulus
    def m__pkcs1_encrypt(self, I, m):
        k = self.octets()
        if cur().branch(compare('>', m.length(), sub(k, 11))):
            raise_exc('ValueError', 'Plaintext is too long.')
        c = fresh_int('pkcs1', 1)
        cur().assume(compare('<', c, self.vals[0]))
        S.note_fits(c, k)
        known_plain().append((self.public(), (c,), Seq('bytes', m.segs)))
        return S.be_seq(c, k)

    def m__pkcs1_decrypt(self, I, ct, sentinel):
        if not self.m_has_private(I):
            raise_exc('TypeError', 'No private key')
        k = self.octets()
        if not cur().branch(eq(ct.length(), k)):
            raise_exc('ValueError', 'Ciphertext with incorrect length.')
        c = S.seq_ival(ct)
        m = self.plain_of((c,))
        if m is not None:
            return m.copy('bytes')
        args = self.public() + (c,)
        if not cur().branch(S.app_bool('pkcs1_padded', args)):
            return sentinel
        r = S.app_bytes('pkcs1_plain', args, None)
        cur().assume(compare('<=', r.length(), sub(k, 11)))
        return r

    def plain_of(self, ct):
        for pub, c, m in known_plain():
            if S.args_same(pub, self.public()) and S.args_same(c, ct):
                return m
        return None

    # ElGamal
    def m_encrypt(self, I, m, k):
        if self.alg != 'ElGamal':
            raise Unsupported('%s.encrypt' % self.alg)
        p = self.attrs['p']
        if not cur().prove(b(conj([compare('>=', k, 1),
                                   compare('<=', k, sub(p, 2))]))) or \
                isinstance(k, int):
            raise_exc('AssertionError', 'the secret number of ElGamal is '
                      'random in [1, p - 2]')
        m = Seq('bytes', m.segs).normalize()
        vals = [fresh_int('elgamal', 1) for _ in 'ab']
        for c in vals:
            cur().assume(compare('<', c, p))
            S.note_fits(c, self.octets())
        # long_to_bytes(bytes_to_long(m)) loses leading zeros
        while m.segs and isinstance(m.segs[0], S.U) \
                and m.segs[0].vals[0] == 0 and is_int(m.segs[0].vals[0]):
            m = S.slice_seq(m, 1, None).normalize()
        if not (m.segs and isinstance(m.segs[0], S.U) and isinstance(
                m.segs[0].vals[0], int)):
            raise Unsupported('ElGamal encryption of unknown leading octets')
        known_plain().append((self.public(), tuple(vals), m))
        return tuple(S.be_seq(c, arith('//', add(S.bit_length(c), 7), 8))
                     for c in vals)

    def m_decrypt(self, I, ct):
        if self.alg != 'ElGamal':
            raise Unsupported('%s.decrypt' % self.alg)
        if not self.m_has_private(I):
            raise_exc('TypeError', 'Private key not available in this object')
        if not isinstance(ct, tuple):
            ct = (ct,)
        if len(ct) < 2:
            raise_exc('IndexError', 'tuple index out of range')
        vals = tuple(S.seq_ival(x) for x in ct[:2])
        m = self.plain_of(vals)
        if m is not None:
            return m.copy('bytes')
        r = S.app_bytes('elgamal_plain', self.public() + vals, None)
        p = cur()
        p.assume(compare('<=', r.length(), self.octets()))
        if p.branch(compare('>', r.length(), 0)):
            p.assume(compare('>', r.get(0), 0))
        return r

    def m_has_private(self, I):
        return len(self.vals) > {'RSA': 2, 'DSA': 4, 'ElGamal': 3}[self.alg]

    def m_sign(self, I, m, k):
        def build(name, args):
            top = self.attrs['q' if self.alg == 'DSA' else 'p']
            out = []
            for i in '12':
                x = fresh_int('%s_%s' % (name, i), 0)
                cur().assume(compare('<', x, top))
                S.note_fits(x, arith('//', add(S.bit_length(top), 7), 8))
                out.append(x)
            return tuple(out)
        return S.app('sign_' + self.alg, tuple(self.vals) + (m, k), build)

    def m_verify(self, I, m, sig):
        pub = self.public()
        sig = tuple(I.to_list(sig))
        # a signature by the corresponding secret key is accepted
        for args, values in cur().apps.get('sign_' + self.alg, []):
            if S.args_same(args[:len(pub)] + (args[-2],), pub + (m,)) \
                    and S.args_same(values, sig):
                return True
        return S.app_bool('pkverify' + self.alg, pub + (m, sig))


# -- time

class TimeTuple(NativeObj):
    typename = 'struct_time'

    def __init__(self, ts):
        self.ts = ts


class DateTime(NativeObj):
    """a naive local datetime, identified with its POSIX timestamp"""
    typename = 'datetime.datetime'

    def __init__(self, ts):
        self.ts = ts

    def m_timetuple(self, I):
        return TimeTuple(self.ts)

    def m_utctimetuple(self, I):
        return TimeTuple(self.ts)

    def m_timestamp(self, I):
        return self.ts

    def eq(self, o, goal):
        return isinstance(o, DateTime) and values_equal(self.ts, o.ts)

    def order(self, op, o):
        if not isinstance(o, DateTime):
            raise_exc('TypeError', 'cannot compare datetime')
        return compare(op, self.ts, o.ts)

    def binop(self, op, o, rev):
        if isinstance(o, TimeDelta) and op in '+-' and not (
                rev and op == '-'):
            return DateTime(arith(op, self.ts, o.secs))
        if isinstance(o, DateTime) and op == '-':
            x, y = (o, self) if rev else (self, o)
            return TimeDelta(sub(x.ts, y.ts))
        return NOTIMPL

    def m_replace(self, I, **k):
        return self


class TimeDelta(NativeObj):
    typename = 'datetime.timedelta'

    def __init__(self, secs):
        self.secs = secs

    def m_total_seconds(self, I):
        return self.secs

    def get_attr(self, I, name):
        if name == 'days':
            return arith('//', self.secs, 86400)
        if name == 'seconds':
            return arith('%', self.secs, 86400)
        if name == 'microseconds':
            return 0
        return NOTFOUND

    def eq(self, o, goal):
        return isinstance(o, TimeDelta) and values_equal(self.secs, o.secs)

    def truth(self, I):
        return neg(eq(self.secs, 0))

    def order(self, op, o):
        return compare(op, self.secs, o.secs)

    def binop(self, op, o, rev):
        if isinstance(o, TimeDelta) and op in '+-':
            x, y = (o, self) if rev else (self, o)
            return TimeDelta(arith(op, x.secs, y.secs))
        return NOTIMPL


def _ts(v):
    v = promote(v)
    if isinstance(v, float):
        v = int(v)
    if isinstance(v, SReal) and v.den == 1:
        return v.num
    return v


@model('datetime', 'datetimes are identified with integer POSIX timestamps '
       '(fixed time zone)')
def _m_datetime(I, ns):
    def fromtimestamp(I, ts, *a):
        ts = _ts(ts)
        if not is_int(ts):
            raise_exc('TypeError', 'an integer is required')
        return DateTime(ts)

    def now(I, *a):
        v = getattr(cur(), 'now', None)
        if v is None:
            v = cur().now = fresh_int('now', 0, 2 ** 33)
        return DateTime(v)

    def ctor(I, *a, **k):
        import datetime as D
        nat = [I.native_or_none(x) for x in a]
        return DateTime(int(D.datetime(*nat, tzinfo=D.timezone.utc)
                            .timestamp()))
    dt = NativeType('datetime.datetime', DateTime, ctor, {
        'fromtimestamp': fn('fromtimestamp', fromtimestamp),
        'utcfromtimestamp': fn('utcfromtimestamp', fromtimestamp),
        'now': fn('now', now), 'utcnow': fn('utcnow', now),
        'today': fn('today', now),
        'max': DateTime(253402300799)})
    ns['datetime'] = dt

    def td(I, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0,
           hours=0, weeks=0):
        for v in (days, seconds, minutes, hours, weeks):
            if not is_int(promote(v)):
                if isinstance(v, (SReal, float)):
                    raise Unsupported('fractional timedelta')
                raise_exc('TypeError', 'unsupported type for timedelta')
        r = seconds
        for v, c in ((minutes, 60), (hours, 3600), (days, 86400),
                     (weeks, 604800)):
            r = add(r, arith('*', v, c))
        return TimeDelta(r)
    ns['timedelta'] = NativeType('datetime.timedelta', TimeDelta, td)


@model('time', 'as datetime')
def _m_time(I, ns):
    def mktime(I, t):
        if not isinstance(t, TimeTuple):
            raise_exc('TypeError', 'Tuple or struct_time argument required')
        return SReal(t.ts, 1) if not isinstance(t.ts, int) else float(t.ts)

    def time(I):
        v = getattr(cur(), 'now', None)
        if v is None:
            v = cur().now = fresh_int('now', 0, 2 ** 33)
        return SReal(v, 1) if not isinstance(v, int) else float(v)
    ns['mktime'] = fn('mktime', mktime)
    ns['time'] = fn('time', time)


@model('calendar')
def _m_calendar(I, ns):
    ns['timegm'] = fn('timegm', lambda I, t: t.ts)


@model('io')
def _m_io(I, ns):
    ns['BytesIO'] = NativeType('io.BytesIO', BytesIO, lambda I, data=None:
                               BytesIO(data))


class BytesIO(NativeObj):
    typename = 'io.BytesIO'

    def __init__(self, data=None):
        self.buf = Seq('bytes', data.segs if data is not None else [])
        self.pos = 0

    def m_read(self, I, n=None):
        if n is None or isinstance(n, int) and n < 0:
            r = S.slice_seq(self.buf, self.pos, None)
            self.pos = add(self.pos, r.length())
            return r
        n = promote(n)
        if not isinstance(n, int) and cur().branch(compare('<', n, 0)):
            r = S.slice_seq(self.buf, self.pos, None)
        else:
            r = S.slice_seq(self.buf, self.pos, add(self.pos, n))
        self.pos = add(self.pos, r.length())
        return r

    def m_seek(self, I, pos, whence=0):
        if whence == 1:
            pos = add(self.pos, pos)
        elif whence == 2:
            pos = add(self.buf.length(), pos)
        self.pos = pos
        return pos

    def m_tell(self, I):
        return self.pos

    def m_write(self, I, data):
        if not isinstance(self.pos, int) or True:
            e = eq(self.pos, self.buf.length())
            if cur().branch(e):
                self.buf = Seq('bytes', self.buf.segs + data.segs)
                self.buf.normalize()
                self.pos = self.buf.length()
                return data.length()
        raise Unsupported('overwrite in BytesIO')

    def m_getvalue(self, I):
        return self.buf.copy()

    def m_close(self, I):
        return None

    def m___enter__(self, I):
        return self

    def m___exit__(self, I, *a):
        return None


class FileV(BytesIO):
    typename = 'io.BufferedIOBase'

    def __init__(self, f, mode, text):
        self.file = f
        self.mode = mode
        self.text = text
        self.closed = False
        self.pos = f.data.length() if mode[0] == 'a' else 0

    @property
    def buf(self):
        return self.file.data

    @buf.setter
    def buf(self, x):
        self.file.data = x

    def ready(self, write):
        if self.closed:
            raise_exc('ValueError', 'I/O operation on closed file.')
        if write != (self.mode[0] != 'r') and '+' not in self.mode:
            raise_exc('UnsupportedOperation', 'read' if not write
                      else 'write')

    def m_read(self, I, n=None):
        self.ready(False)
        r = BytesIO.m_read(self, I, n)
        return file_text(I, r) if self.text else r

    def m_write(self, I, data):
        self.ready(True)
        if self.text:
            if not isinstance(data, str):
                raise Unsupported('writing symbolic text')
            data = S.Seq.units('bytes', list(data.encode('utf-8')))
        return BytesIO.m_write(self, I, data)

    def m_tell(self, I):
        self.ready(self.mode[0] != 'r')
        return self.pos

    def m_seek(self, I, pos, whence=0):
        self.ready(self.mode[0] != 'r')
        return BytesIO.m_seek(self, I, pos, whence)

    def m_truncate(self, I, n=None):
        self.ready(True)
        self.buf = S.slice_seq(self.buf, 0, self.pos if n is None else n)
        return self.buf.length()

    def m_flush(self, I):
        return None

    def m_close(self, I):
        self.closed = True

    def m___exit__(self, I, *a):
        self.closed = True
        return None


# -- struct and binascii, as refactored code may use them

def struct_format(f):
    if isinstance(f, Seq):
        f = f.native()
        f = f if isinstance(f, str) else f.decode()
    order = 'big'
    if f[:1] in '><!=@' and f:
        if f[0] == '<':
            order = 'little'
        elif f[0] not in '>!':
            raise Unsupported('struct format %r' % f)
        f = f[1:]
    elif any(c not in 'B0123456789' for c in f):
        raise Unsupported('struct format %r' % f)
    out = []
    n = ''
    for c in f:
        if c.isdigit():
            n += c
        elif c in 'BHILQ':
            out += [(c, {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}[c])
                    ] * int(n or 1)
            n = ''
        elif c == 's':
            out.append((c, int(n or 1)))
            n = ''
        else:
            raise Unsupported('struct format %r' % f)
    return order, out


@model('struct', 'integers in the given order and octet strings')
def _m_struct(I, ns):
    def pack(I, f, *vals):
        order, items = struct_format(f)
        if len(vals) != len(items):
            raise Unsupported('struct.error')
        out = Seq('bytes', [])
        for (c, n), v in zip(items, vals):
            if c == 's':
                raise Unsupported('struct format s')
            v = promote(v)
            if not is_int(v):
                raise Unsupported('struct.error')
            if cur().branch(b(core.disj([
                    compare('<', v, 0), compare('>=', v, 1 << (8 * n))]))):
                raise Unsupported("struct.error")
            out = I.binop('+', out, native_attr(I, v, 'to_bytes').fn(
                I, [n, order], {}))
        return out

    def unpack_from(I, f, data, offset=0):
        order, items = struct_format(f)
        data = I.to_seq(data, 'bytes')
        out = []
        for c, n in items:
            part = I.slice(data, offset, add(offset, n), None)
            out.append(part if c == 's' else int_from_bytes(
                I, [part, order], {}))
            offset = add(offset, n)
        return tuple(out)

    def unpack(I, f, data):
        size = sum(n for c, n in struct_format(f)[1])
        data = I.to_seq(data, 'bytes')
        if cur().branch(b(neg(eq(data.length(), size)))):
            raise Unsupported("struct.error")
        return unpack_from(I, f, data)
    ns['pack'] = fn('pack', pack)
    ns['unpack'] = fn('unpack', unpack)
    ns['calcsize'] = fn('calcsize', lambda I, f: sum(
        n for c, n in struct_format(f)[1]))


@model('binascii', 'hexadecimal text')
def _m_binascii(I, ns):
    def hexlify(I, data):
        t = hex_of(I.to_seq(data, 'bytes'), False)
        return I.call(I.getattr(t, 'encode'), ['ascii'], {})

    def unhexlify(I, t):
        if isinstance(t, Seq) and t.kind != 'str':
            t = I.call(I.getattr(t, 'decode'), ['ascii'], {})
        return unhex('bytes', t)
    ns['hexlify'] = ns['b2a_hex'] = fn('hexlify', hexlify)
    ns['unhexlify'] = ns['a2b_hex'] = fn('unhexlify', unhexlify)
