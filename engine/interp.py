"""Symbolic interpreter for the Python subset the repository uses.

It executes the *real* AST of the modules under the repository root; nothing
is translated by hand.  Callees with a contract are replaced by the contract
(precondition asserted, postcondition assumed); callees without one are
executed (inlined).
"""
import ast
import os
import string
import threading
import types

import z3

from . import core
from . import seq as S
from .core import (BInt, GuestExc, PathEnd, SBool, SInt, SReal, Unsupported,
                   add, arith, b, bounds, compare, conj, cur, disj, eq,
                   fresh_int, is_int, is_sym, mkbool, neg, promote, sub, z)
from .seq import Seq

BYTE_KINDS = S.BYTE_KINDS
REPO = os.environ.get('VERIF_REPO', '/repo')


# ------------------------------------------------------------ object model

class ClassV(object):
    def __init__(self, name, bases, ns, module=None, builtin=False):
        self.name = name
        self.bases = list(bases)
        self.ns = ns
        self.module = module
        self.builtin = builtin
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(x.mro) for x in self.bases if isinstance(x, ClassV)]
        seqs.append([x for x in self.bases if isinstance(x, ClassV)])
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('mro')
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return NOTFOUND

    @property
    def qualname(self):
        return '%s.%s' % (self.module, self.name) if self.module \
            else self.name

    def __repr__(self):
        return '<class %s>' % self.qualname


class _NF(object):
    def __repr__(self):
        return 'NOTFOUND'


NOTFOUND = _NF()
FORGOTTEN = _NF()


class Obj(object):
    _next = [0]

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        Obj._next[0] += 1
        self.oid = Obj._next[0]

    def __repr__(self):
        return '<%s object #%d>' % (self.cls.name, self.oid)


class FuncV(object):
    def __init__(self, name, node, defaults, kwdefaults, env, module, cls=None,
                 qualname=None):
        self.name = name
        self.node = node
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.env = env
        self.module = module
        self.cls = cls
        self.qualname = qualname
        self.attrs = {}
        self.isgen = None
        self.locals = None

    def __repr__(self):
        return '<function %s>' % self.qualname


class BoundV(object):
    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class StaticV(object):
    def __init__(self, f):
        self.f = f


class ClassMethodV(object):
    def __init__(self, f):
        self.f = f


class PropV(object):
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ModuleV(object):
    def __init__(self, name):
        self.name = name
        self.ns = {'__name__': name}

    def __repr__(self):
        return '<module %s>' % self.name


class ExtV(object):
    """Something outside the repository that has no model."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<external %s>' % self.name


class Builtin(object):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class TypeV(object):
    """A built-in type."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<type %s>' % self.name


class NativeObj(object):
    """Base of hand-written models of library objects: methods m_NAME."""
    typename = 'object'


class RangeV(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def count(self):
        if all(isinstance(v, int) for v in (self.start, self.stop,
                                            self.step)):
            return len(range(self.start, self.stop, self.step))
        if not isinstance(self.step, int):
            raise Unsupported('range step')
        d = sub(self.stop, self.start) if self.step > 0 \
            else sub(self.start, self.stop)
        st = abs(self.step)
        n = core.divc(promote(add(d, st - 1)), st) if st > 1 else d
        if cur().branch(compare('<', n, 0)):
            return 0
        if isinstance(n, SInt):
            n = SInt(n.e, max(0, n.lo or 0), n.hi)
        return n

    def at(self, k):
        return add(self.start, arith('*', k, self.step))


class DictV(object):
    def __init__(self, items=(), ordered=True):
        self.keys_ = []
        self.vals = []
        self.index = {}
        self.cls = None
        for k, v in items:
            self.set(k, v)

    @staticmethod
    def hk(k):
        """hashable native key or None if symbolic"""
        if isinstance(k, (bool, int, str, float)) or k is None:
            return k
        if isinstance(k, tuple):
            t = tuple(DictV.hk(x) for x in k)
            return None if any(x is None and y is not None
                               for x, y in zip(t, k)) else ('t',) + t
        if isinstance(k, Seq):
            if k.kind in ('bytes', 'str'):
                return k.native() if k.is_concrete() else None
            raise_exc('TypeError', "unhashable type: '%s'" % k.kind)
        if isinstance(k, (DictV, SetV)):
            raise_exc('TypeError', 'unhashable type')
        if is_sym(k):
            return None
        if isinstance(k, Obj):
            h = k.cls.lookup('__hash__')
            e = k.cls.lookup('__eq__')
            if not is_hashable(k.cls):
                raise_exc('TypeError', "unhashable type: '%s'" % k.cls.name)
            if e is not NOTFOUND and not isinstance(e, Builtin):
                return None
        return ('id', id(k))

    def find(self, k):
        h = self.hk(k)
        if h is not None or k is None:
            if (h, type(h) is str) in self.index:
                return self.index[(h, type(h) is str)]
            # symbolic keys stored?
            for i, k2 in enumerate(self.keys_):
                if k2 is DEL:
                    continue
                if k2 is not None and self.hk(k2) is None:
                    if cur().branch(values_equal(k2, k)):
                        return i
            return None
        for i, k2 in enumerate(self.keys_):
            if k2 is DEL:
                continue
            c = values_equal(k2, k)
            if cur().branch(c):
                return i
        return None

    def set(self, k, v):
        i = self.find(k)
        if i is not None:
            self.vals[i] = v
            return
        h = self.hk(k)
        if h is not None or k is None:
            self.index[(h, type(h) is str)] = len(self.keys_)
        self.keys_.append(k)
        self.vals.append(v)

    def delete(self, k):
        i = self.find(k)
        if i is None:
            raise_exc('KeyError', k)
        v = self.vals[i]
        del self.keys_[i]
        del self.vals[i]
        self.index = {}
        for j, k2 in enumerate(self.keys_):
            h = self.hk(k2)
            if h is not None or k2 is None:
                self.index[(h, type(h) is str)] = j
        return v

    def items(self):
        return list(zip(self.keys_, self.vals))

    def __len__(self):
        return len(self.keys_)

    def __bool__(self):
        return True


DEL = object()


class SetV(object):
    def __init__(self, items=()):
        self.d = DictV()
        for i in items:
            self.d.set(i, None)

    def items(self):
        return list(self.d.keys_)

    def has(self, k):
        return self.d.find(k) is not None

    def __bool__(self):
        return True


class GenV(object):
    """Generator executed in its own thread with strict hand-off."""

    def __init__(self, interp, func, env):
        self.interp = interp
        self.done = False
        self.i = 0
        self.started = False
        self.value = None
        self.exc = None
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.kill = False
        self.func = func
        self.env = env
        self.depth = interp.depth
        cur().gens.append(self)

    def _run(self):
        self.go.acquire()
        try:
            if not self.kill:
                frame = Frame(self.func, self.env, self)
                try:
                    self.interp.exec_block(self.func.node.body, frame)
                except ReturnEx:
                    pass
        except BaseException as e:      # noqa
            self.exc = e
        self.done = True
        self.back.release()

    def next(self):
        """(True, value) or (False, None)"""
        if self.done:
            return False, None
        self.i += 1
        if not self.started:
            self.started = True
            self.thread = threading.Thread(target=self._run, daemon=True)
            self.thread.start()
        saved = self.interp.stack
        self.interp.stack = list(saved) + [
            (self.func, self.env)]
        self.go.release()
        self.back.acquire()
        self.interp.stack = saved
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e
        if self.done:
            return False, None
        return True, self.value

    def emit(self, v):
        self.value = v
        self.back.release()
        self.go.acquire()
        if self.kill:
            raise PathEnd('generator closed')

    def close(self):
        if self.started and not self.done:
            self.kill = True
            self.go.release()
            self.back.acquire()


class ListIter(object):
    def __init__(self, items):
        self.items = list(items)
        self.i = 0

    def next(self):
        if self.i >= len(self.items):
            return False, None
        self.i += 1
        return True, self.items[self.i - 1]


class Frame(object):
    __slots__ = ('func', 'env', 'gen', 'loops')

    def __init__(self, func, env, gen=None):
        self.func = func
        self.env = env
        self.gen = gen
        self.loops = {}


class Env(object):
    __slots__ = ('vars', 'parent', 'module', 'names', 'globals_', 'nonlocals')

    def __init__(self, parent, module, names=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.names = names          # local names (None: class/module scope)
        self.globals_ = ()
        self.nonlocals = ()


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


# ------------------------------------------------------ exceptions, types

EXC = {}


def _mk_exc():
    import builtins
    obj = ClassV('object', [], {}, builtin=True)
    EXC['object'] = obj
    order = ['BaseException']
    for n in dir(builtins):
        c = getattr(builtins, n)
        if isinstance(c, type) and issubclass(c, BaseException):
            order.append(n)

    def get(c):
        n = c.__name__
        if n in EXC:
            return EXC[n]
        base = c.__base__
        bc = obj if base is object else get(base)
        EXC[n] = ClassV(n, [bc], {}, builtin=True)
        return EXC[n]
    for n in order:
        c = getattr(builtins, n)
        EXC.setdefault(n, get(c))
    EXC['IOError'] = EXC['OSError']
    EXC['EnvironmentError'] = EXC['OSError']


_mk_exc()
OBJECT = EXC['object']


def raise_exc(name, msg=''):
    o = Obj(EXC[name], {'args': (msg,)})
    raise GuestExc(o)


core.RAISE = raise_exc

TYPES = {n: TypeV(n) for n in (
    'int', 'bool', 'float', 'str', 'bytes', 'bytearray', 'list', 'tuple',
    'dict', 'set', 'frozenset', 'type', 'NoneType', 'function', 'range')}


def type_of(v):
    if v is None:
        return TYPES['NoneType']
    if isinstance(v, (bool, SBool)):
        return TYPES['bool']
    if is_int(v):
        return TYPES['int']
    if isinstance(v, (float, SReal)):
        return TYPES['float']
    if isinstance(v, str):
        return TYPES['str']
    if isinstance(v, Seq):
        return TYPES[v.kind]
    if isinstance(v, tuple):
        return TYPES['tuple']
    if isinstance(v, DictV):
        return TYPES['dict']
    if isinstance(v, SetV):
        return TYPES['set']
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, (ClassV, TypeV)):
        return TYPES['type']
    if isinstance(v, (FuncV, BoundV, Builtin)):
        return TYPES['function']
    if isinstance(v, RangeV):
        return TYPES['range']
    if isinstance(v, NativeObj):
        return TypeV(v.typename)
    raise Unsupported('type of %r' % (v,))


def is_hashable(cls):
    for c in cls.mro:
        if '__hash__' in c.ns:
            return c.ns['__hash__'] is not None
        if '__eq__' in c.ns and not c.builtin:
            return False
    return True


def isinstance_(v, t):
    if isinstance(t, tuple):
        return any(isinstance_(v, x) for x in t)
    if isinstance(t, ClassV):
        if t is OBJECT:
            return True
        return isinstance(v, Obj) and t in v.cls.mro
    if isinstance(t, TypeV):
        ty = type_of(v)
        if isinstance(ty, TypeV):
            return ty.name == t.name or (ty.name == 'bool'
                                         and t.name == 'int')
        if isinstance(ty, ClassV):
            return any(isinstance(x, TypeV) and x.name == t.name
                       for c in ty.mro for x in c.bases)
    if isinstance(t, ExtV):
        if isinstance(v, Obj):
            return any(isinstance(x, ExtV) and x.name == t.name
                       for c in v.cls.mro for x in c.bases)
        if isinstance(v, NativeObj):
            return v.typename == t.name
        return False
    if isinstance(t, NativeType):
        return isinstance(v, t.cls)
    raise Unsupported('isinstance %r' % (t,))


class NativeType(object):
    """A modelled library class (callable; isinstance works)."""

    def __init__(self, name, cls, ctor, attrs=None):
        self.name = name
        self.cls = cls
        self.ctor = ctor
        self.attrs = attrs or {}


_NATIVE = {}


def native_class(cls, o):
    if cls not in _NATIVE:
        def ctor(i, a, kw):
            raise Unsupported('constructing a %s' % o.typename)
        _NATIVE[cls] = NativeType(o.typename, cls, ctor)
    return _NATIVE[cls]


# -------------------------------------------------------------- equality

INTERP = None


def values_equal(x, y, goal=False):
    """bool / SBool"""
    if x is y:
        if not isinstance(x, Obj):
            return True
    if is_int(x) and is_int(y):
        return eq(x, y)
    if isinstance(x, SBool) or isinstance(y, SBool):
        if is_int(x) or is_int(y) or isinstance(x, SBool) \
                and isinstance(y, SBool):
            return eq(promote(x), promote(y))
        return False
    if isinstance(x, SReal) or isinstance(y, SReal):
        if isinstance(x, SReal) and is_int(y):
            return eq(x.num, arith('*', y, x.den))
        if isinstance(y, SReal) and is_int(x):
            return values_equal(y, x)
        raise Unsupported('rational comparison')
    if x is None or y is None:
        if isinstance(x, Obj) or isinstance(y, Obj):
            pass
        else:
            return x is y
    xs = isinstance(x, (str, Seq))
    ys = isinstance(y, (str, Seq))
    if xs and ys:
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        kx = 'str' if isinstance(x, str) else x.kind
        ky = 'str' if isinstance(y, str) else y.kind
        if kx != ky and not (kx in BYTE_KINDS and ky in BYTE_KINDS):
            return False
        return S.seq_eq(S.str_seq(x), S.str_seq(y), goal)
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False
        return conj_lazy([(lambda p=p, q=q: values_equal(p, q, goal))
                          for p, q in zip(x, y)])
    if isinstance(x, DictV) and isinstance(y, DictV):
        if len(x) != len(y):
            return False
        out = []
        for k, v in x.items():
            i = y.find(k)
            if i is None:
                return False
            c = values_equal(v, y.vals[i], goal)
            if c is False:
                return False
            out.append(c)
        return conj(out)
    if isinstance(x, SetV) and isinstance(y, SetV):
        if len(x.items()) != len(y.items()):
            return False
        for k in x.items():
            if not y.has(k):
                return False
        return True
    for u, v in ((x, y), (y, x)):
        if isinstance(u, Obj):
            m = u.cls.lookup('__eq__')
            if m is not NOTFOUND and not isinstance(m, Builtin):
                r = INTERP.call(BoundV(m, u), [v], {})
                if r is NOTIMPL:
                    continue
                if isinstance(r, (bool, SBool)):
                    return r
                return INTERP.truth(r)
    if isinstance(x, NativeObj) and hasattr(x, 'eq'):
        return x.eq(y, goal)
    if isinstance(x, BoundV) and isinstance(y, BoundV):
        return x.func is y.func and x.self is y.self
    if isinstance(x, float) and isinstance(y, (int, float)) \
            or isinstance(y, float) and isinstance(x, (int, float)):
        return x == y
    if isinstance(x, RangeV) and isinstance(y, RangeV):
        raise Unsupported('range equality')
    return x is y


class _NotImpl(object):
    pass


NOTIMPL = _NotImpl()


def conj_lazy(thunks):
    out = []
    for t in thunks:
        c = t()
        if c is False:
            return False
        out.append(c)
    return conj(out)


S.EQV = values_equal


# --------------------------------------------------------- scope analysis

class _Scope(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.globals = set()
        self.nonlocals = set()
        self.gen = False

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # first iterator is evaluated in the enclosing scope; walrus ignored
        self.visit(n.generators[0].iter)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = _comp
    visit_DictComp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear',
            'reverse', 'sort', 'update', 'add', 'discard', 'setdefault',
            'popitem'}


class _LoopVars(ast.NodeVisitor):
    """names a loop body may rebind or mutate"""

    def __init__(self):
        self.rebind = set()
        self.mutate = set()
        self.attrs = set()

    def visit_FunctionDef(self, n):
        self.rebind.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.rebind.add(n.id)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.mutate.add(n.target.id)
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            self.attrs.add((n.value.id, n.attr))
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            if isinstance(n.value, ast.Name):
                self.mutate.add(n.value.id)
            elif isinstance(n.value, ast.Attribute) and isinstance(
                    n.value.value, ast.Name):
                self.attrs.add((n.value.value.id, n.value.attr))
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
            if isinstance(f.value, ast.Name):
                self.mutate.add(f.value.id)
            elif isinstance(f.value, ast.Attribute) and isinstance(
                    f.value.value, ast.Name):
                self.attrs.add((f.value.value.id, f.value.attr))
        self.generic_visit(n)


# ---------------------------------------------------------------- contracts

CONTRACTS = {}      # qualname -> Contract
LOOPSPECS = {}      # qualname -> function(L) -> list of candidates


class Interp(object):
    MAX_UNROLL = 70
    MAX_DEPTH = 90
    MAX_STEPS = 600000

    def trust(self, what):
        self.trusted_used.add(what)

    def __init__(self, root=None, models=None):
        self.root = root or REPO
        self.modules = {}
        self.stack = []
        self.envs = []
        self.depth = 0
        self.steps = 0
        self.nocontract = set()
        self.inlined = set()
        self.used_contracts = set()
        self.loop_dropped = {}
        self.loop_again = {}
        self.loop_extra = {}
        self.exec_funcs = set()
        self.trusted_used = set()
        self.extra_roots = []
        self.load_notes = []
        from . import models as M
        self.models = M.MODELS
        self.builtins = M.BUILTINS
        self.handling = []
        global INTERP
        INTERP = self

    def reset(self):
        self.stack = []
        self.envs = []
        self.depth = 0
        self.steps = 0
        self.handling = []

    # -- modules
    def exec_source(self, text, ns):
        """model written in the guest language"""
        m = ModuleV('model')
        m.ns = ns
        env = Env(None, m)
        env.vars = ns
        frame = Frame(None, env)
        ns.setdefault('__name__', 'model')
        for st in ast.parse(text).body:
            self.exec(st, frame)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.models:
            m = self.models[name](self)
            self.modules[name] = m
            return m
        path = self.find(name)
        if path is None:
            m = ExtV(name)
            self.modules[name] = m
            return m
        m = ModuleV(name)
        self.modules[name] = m
        m.ns['__file__'] = path
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if isinstance(parent, ModuleV):
                parent.ns[name.rsplit('.', 1)[1]] = m
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        m.path = path
        env = Env(None, m)
        env.vars = m.ns
        frame = Frame(None, env)
        try:
            for st in tree.body:
                try:
                    self.exec(st, frame)
                except Unsupported as e:
                    # names this statement binds become opaque: any use of
                    # them is Unsupported in turn
                    for x in ast.walk(st):
                        if isinstance(x, ast.Name) and isinstance(
                                x.ctx, ast.Store):
                            m.ns.setdefault(x.id, ExtV('%s.%s (%s)' % (
                                name, x.id, e)))
                    if isinstance(st, (ast.ClassDef, ast.FunctionDef)):
                        m.ns.setdefault(st.name, ExtV('%s.%s (%s)' % (
                            name, st.name, e)))
                    self.load_notes.append('%s:%d %s' % (name, st.lineno, e))
        except BaseException:
            self.modules.pop(name, None)
            raise
        return m

    def find(self, name):
        rel = name.replace('.', '/')
        for root in [self.root] + self.extra_roots:
            if root == self.root and name.split('.')[0] != 'pgp':
                continue
            for p in (os.path.join(root, rel, '__init__.py'),
                      os.path.join(root, rel + '.py')):
                if os.path.exists(p):
                    return p
        return None

    def import_(self, name):
        """import name, return the leaf module"""
        parts = name.split('.')
        m = None
        for i in range(len(parts)):
            m = self.load('.'.join(parts[:i + 1]))
        return m

    # -- names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                r = e.vars[name]
                if r is FORGOTTEN:
                    raise Unsupported('value of an earlier iteration: %s'
                                      % name)
                return r
            if e.names is not None and name in e.names \
                    and name not in e.globals_ and name not in e.nonlocals:
                raise_exc('UnboundLocalError',
                          "local variable '%s' referenced before assignment"
                          % name)
            e = e.parent
        ns = env.module.ns
        if name in ns:
            return ns[name]
        if name in self.builtins:
            return self.builtins[name]
        if name in EXC:
            return EXC[name]
        if name in TYPES and name != 'NoneType':
            return TYPES[name]
        raise_exc('NameError', "name '%s' is not defined" % name)

    def store(self, name, v, env):
        if name in env.globals_:
            env.module.ns[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    # -- statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, n, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise core.Budget('step limit')
        m = getattr(self, 'x_' + n.__class__.__name__, None)
        if m is None:
            raise Unsupported('statement %s' % n.__class__.__name__)
        return m(n, fr)

    def x_Expr(self, n, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, fr)

    def x_Pass(self, n, fr):
        pass

    def x_Return(self, n, fr):
        raise ReturnEx(None if n.value is None else self.eval(n.value, fr))

    def x_Break(self, n, fr):
        raise BreakEx()

    def x_Continue(self, n, fr):
        raise ContinueEx()

    def x_Global(self, n, fr):
        pass

    x_Nonlocal = x_Global

    def x_Assert(self, n, fr):
        if not self.truth(self.eval(n.test, fr)):
            raise_exc('AssertionError', '')

    def x_If(self, n, fr):
        if self.truth(self.eval(n.test, fr)):
            self.exec_block(n.body, fr)
        else:
            self.exec_block(n.orelse, fr)

    def x_Assign(self, n, fr):
        v = self.eval(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr.env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t)
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, x, fr)
                else:
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, t.slice, v, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, t):
        star = [i for i, e in enumerate(t.elts)
                if isinstance(e, ast.Starred)]
        items = self.to_list(v)
        if star:
            i = star[0]
            after = n - i - 1
            if len(items) < n - 1:
                raise_exc('ValueError', 'not enough values to unpack')
            mid = items[i:len(items) - after]
            return items[:i] + [Seq.units('list', mid)] \
                + items[len(items) - after:]
        if len(items) != n:
            raise_exc('ValueError', 'wrong number of values to unpack')
        return items

    def x_AugAssign(self, n, fr):
        t = n.target
        op = BINOPS[n.op.__class__]
        if isinstance(t, ast.Name):
            curv = self.lookup(t.id, fr.env)
            v = self.eval(n.value, fr)
            r = self.inplace(op, curv, v)
            self.store(t.id, r, fr.env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            curv = self.getattr(o, t.attr)
            v = self.eval(n.value, fr)
            self.setattr(o, t.attr, self.inplace(op, curv, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            curv = self.getitem(o, t.slice, fr)
            v = self.eval(n.value, fr)
            self.setitem(o, t.slice, self.inplace(op, curv, v), fr)
        else:
            raise Unsupported('augmented assignment target')

    def inplace(self, op, x, y):
        if op == '+' and isinstance(x, Seq) and x.kind in ('bytearray',
                                                           'list'):
            self.seq_extend(x, y)
            return x
        if isinstance(x, Obj):
            m = x.cls.lookup({'+': '__iadd__', '-': '__isub__',
                              '|': '__ior__'}.get(op, '?'))
            if m is not NOTFOUND:
                return self.call(BoundV(m, x), [y], {})
        return self.binop(op, x, y)

    def x_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                fr.env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                self.delitem(o, t.slice, fr)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise_exc('AttributeError', t.attr)
            else:
                raise Unsupported('del')

    def x_Import(self, n, fr):
        for a in n.names:
            leaf = self.import_(a.name)
            if a.asname:
                self.store(a.asname, leaf, fr.env)
            else:
                top = self.load(a.name.split('.')[0])
                self.store(a.name.split('.')[0], top, fr.env)

    def x_ImportFrom(self, n, fr):
        name = n.module or ''
        if n.level:
            pkg = fr.env.module.name
            path = getattr(fr.env.module, 'path', fr.env.module.ns.get(
                '__file__', ''))
            parts = pkg.split('.')
            if not path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        m = self.import_(name)
        for a in n.names:
            if a.name == '*':
                if isinstance(m, ModuleV):
                    for k, v in list(m.ns.items()):
                        if not k.startswith('_'):
                            self.store(k, v, fr.env)
                continue
            v = self.import_attr(m, name, a.name)
            self.store(a.asname or a.name, v, fr.env)

    def import_attr(self, m, name, attr):
        if isinstance(m, ModuleV):
            if attr in m.ns:
                return m.ns[attr]
            full = name + '.' + attr
            if full in self.models or self.find(full):
                return self.load(full)
            if full.startswith('pgp.') or getattr(m, 'strict', True):
                if not getattr(m, 'ext', False):
                    raise_exc('ImportError', 'cannot import name %s' % attr)
            return ExtV(full)
        if isinstance(m, ExtV):
            full = name + '.' + attr
            if full in self.models:
                return self.load(full)
            return ExtV(full)
        return self.getattr(m, attr)

    def x_FunctionDef(self, n, fr):
        f = self.make_function(n, fr)
        v = f
        for d in reversed(n.decorator_list):
            dec = self.eval(d, fr)
            v = self.decorate(dec, v)
        self.store(n.name, v, fr.env)

    def decorate(self, dec, v):
        if isinstance(dec, ExtV):
            return v
        return self.call(dec, [v], {})

    def make_function(self, n, fr, name=None):
        args = n.args
        defaults = [self.eval(d, fr) for d in args.defaults]
        kwd = {}
        for a, d in zip(args.kwonlyargs, args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.eval(d, fr)
        name = name or n.name
        env = fr.env
        owner = env.vars.get('__qualprefix__') if env.names is None else None
        mod = env.module.name
        if owner:
            q = '%s.%s' % (owner, name)
        elif fr.func is not None:
            q = '%s.<locals>.%s' % (fr.func.qualname, name)
        else:
            q = '%s.%s' % (mod, name)
        closure = env
        # class bodies are not enclosing scopes
        while closure is not None and closure.names is None \
                and closure.vars is not closure.module.ns:
            closure = closure.parent
        if closure is not None and closure.vars is closure.module.ns:
            closure = None
        return FuncV(name, n, defaults, kwd, closure, env.module, None, q)

    def x_ClassDef(self, n, fr):
        bases = [self.eval(x, fr) for x in n.bases]
        env = Env(fr.env, fr.env.module)
        prefix = fr.env.vars.get('__qualprefix__') \
            if fr.env.names is None else None
        env.vars = {'__qualprefix__': '%s.%s' % (
            prefix or fr.env.module.name, n.name),
            '__module__': fr.env.module.name}
        self.exec_block(n.body, Frame(fr.func, env))
        env.vars.pop('__qualprefix__')
        cls = self.make_class(n.name, bases, env.vars, fr.env.module.name)
        v = cls
        for d in reversed(n.decorator_list):
            v = self.decorate(self.eval(d, fr), v)
        self.store(n.name, v, fr.env)

    def make_class(self, name, bases, ns, module):
        if not any(isinstance(x, ClassV) for x in bases):
            bases = list(bases) + [OBJECT]
        cls = ClassV(name, bases, ns, module)
        for v in ns.values():
            f = v
            if isinstance(f, (StaticV, ClassMethodV)):
                f = f.f
            if isinstance(f, FuncV) and f.cls is None:
                f.cls = cls
            if isinstance(f, PropV):
                for g in (f.fget, f.fset):
                    if isinstance(g, FuncV) and g.cls is None:
                        g.cls = cls
        return cls

    def x_Raise(self, n, fr):
        if n.exc is None:
            if self.handling:
                raise GuestExc(self.handling[-1])
            raise_exc('RuntimeError', 'No active exception to reraise')
        v = self.eval(n.exc, fr)
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if isinstance(v, Builtin) or v is NOTIMPL or not isinstance(v, Obj):
            if isinstance(v, ExtV) or isinstance(v, NativeObj):
                raise Unsupported('raise of external exception')
            raise_exc('TypeError',
                      'exceptions must derive from BaseException')
        raise GuestExc(v)

    def x_Try(self, n, fr):
        try:
            try:
                self.exec_block(n.body, fr)
            except GuestExc as e:
                for h in n.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, fr)
                        ok = isinstance_(e.val, t)
                    if ok:
                        if h.name:
                            self.store(h.name, e.val, fr.env)
                        self.handling.append(e.val)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(n.orelse, fr)
        except (PathEnd, core.Restart, Unsupported, core.Budget):
            raise
        except (GuestExc, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(n.finalbody, fr)
            raise
        else:
            self.exec_block(n.finalbody, fr)

    def x_With(self, n, fr):
        self._with(n.items, 0, n.body, fr)

    def _with(self, items, i, body, fr):
        if i == len(items):
            self.exec_block(body, fr)
            return
        it = items[i]
        mgr = self.eval(it.context_expr, fr)
        v = self.call_method(mgr, '__enter__', [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self._with(items, i + 1, body, fr)
        except GuestExc as e:
            r = self.call_method(mgr, '__exit__',
                                 [e.val.cls, e.val, None], {})
            if not self.truth(r):
                raise
            return
        except (ReturnEx, BreakEx, ContinueEx):
            self.call_method(mgr, '__exit__', [None, None, None], {})
            raise
        self.call_method(mgr, '__exit__', [None, None, None], {})

    # ------------------------------------------------------------- loops
    def spec_owner(self):
        """innermost function on the call stack that has loop specs"""
        for f, env in reversed(self.stack):
            if f is not None and f.qualname in LOOPSPECS:
                return f, env
        return None, None

    def x_While(self, n, fr):
        f, env = self.spec_owner()
        p = cur()
        if f is not None:
            # try to see whether the loop is decided natively
            from .loops import symbolic_while
            if symbolic_while(self, n, fr, f, env):
                return
        count = 0
        forget = False
        rid = ('retry', fr.env.module.name, n.lineno, n.col_offset)
        try:
            while True:
                before = len(p.alts)
                t = self.eval(n.test, fr)
                if not self.truth(t):
                    break
                if len(p.alts) > before or not isinstance(t, bool):
                    count += 1
                    if count > self.MAX_UNROLL:
                        raise Unsupported('loop needs an invariant: %s:%d'
                                          % (fr.env.module.name, n.lineno))
                if isinstance(n.test, ast.Constant) and not forget:
                    snap = None
                    if not self.loop_dropped.get(rid):
                        from .loops import heap_snapshot
                        snap = heap_snapshot(self, fr)
                    steps = len(p.trace)
                try:
                    self.exec_block(n.body, fr)
                except ContinueEx:
                    pass
                except Unsupported as e:
                    if forget and 'earlier iteration' in str(e):
                        self.loop_dropped.setdefault(rid, set()).add('retry')
                        raise core.Restart('retry')
                    raise
                if isinstance(n.test, ast.Constant) and snap is not None \
                        and (forget or len(p.trace) > steps):
                    # an iteration that leaves nothing behind, other than
                    # variables which the next one does not read: the next
                    # one is like it
                    from .loops import heap_changed
                    if heap_changed(snap, fr):
                        if forget:
                            self.loop_dropped.setdefault(rid, set()).add(
                                'retry')
                            raise core.Restart('retry')
                        continue
                    if forget:
                        p.lemmas_used.add('retry loop %s:%d' % (
                            fr.env.module.name, n.lineno))
                        raise PathEnd('iteration checked')
                    lv = _LoopVars()
                    for x in n.body:
                        lv.visit(x)
                    for name in lv.rebind:
                        if name in fr.env.vars:
                            fr.env.vars[name] = FORGOTTEN
                    forget = True
        except BreakEx:
            return
        self.exec_block(n.orelse, fr)

    def x_For(self, n, fr):
        it = self.eval(n.iter, fr)
        self.for_loop(n, it, fr)

    def for_loop(self, n, it, fr):
        items = self.iter_concrete(it)
        if items is None:
            from .loops import symbolic_for
            symbolic_for(self, n, it, fr)
            return
        try:
            while True:
                ok, v = items.next()
                if not ok:
                    break
                self.assign(n.target, v, fr)
                try:
                    self.exec_block(n.body, fr)
                except ContinueEx:
                    pass
        except BreakEx:
            return
        self.exec_block(n.orelse, fr)

    def iter_concrete(self, it):
        """iterator with next() -> (ok, v), or None when of symbolic length"""
        if isinstance(it, (GenV, ListIter)):
            return it
        if isinstance(it, RangeV):
            n = it.count()
            if isinstance(n, int):
                if n > 200000:
                    raise Unsupported('very long range')
                return ListIter([it.at(k) for k in range(n)])
            return None
        if isinstance(it, Seq):
            it.normalize()
            if it.kind == 'list' and it.is_units():
                return LiveIter(it)
            if all(isinstance(s.n, int) for s in it.segs) \
                    and sum(s.n for s in it.segs) <= 4096:
                return ListIter(self.seq_items(it))
            n = it.length()
            if isinstance(n, SInt):
                pr = cur()
                # decided length?
                if n.hi is not None and n.hi <= 64:
                    k = core.concretize(SInt(n.e, n.lo or 0, n.hi))
                    return ListIter([self.wrap_elem(it, it.get(i))
                                     for i in range(k)])
            return None
        if isinstance(it, SymIter):
            return None
        return ListIter(self.to_list(it))

    def wrap_elem(self, s, v):
        if s.kind == 'str':
            return S.simplify_str(Seq.units('str', [v]))
        return v

    def seq_items(self, s):
        s.normalize()
        out = []
        for g in s.segs:
            if not isinstance(g.n, int):
                raise Unsupported('iteration over symbolic length')
            for i in range(g.n):
                out.append(self.wrap_elem(s, S.seg_elem(g, i)))
        return out

    def to_list(self, v):
        """python list of the elements of an iterable of known length"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Seq):
            v.normalize()
            if not all(isinstance(s.n, int) for s in v.segs):
                n = v.length()
                k = core.concretize(n) if bounds(n)[1] is not None \
                    and bounds(n)[1] <= 64 else None
                if k is None:
                    raise SymLen(v)
                return [self.wrap_elem(v, v.get(i)) for i in range(k)]
            return self.seq_items(v)
        if isinstance(v, DictV):
            return list(v.keys_)
        if isinstance(v, SetV):
            return v.items()
        if isinstance(v, RangeV):
            n = v.count()
            if not isinstance(n, int):
                raise SymLen(v)
            return [v.at(k) for k in range(n)]
        if isinstance(v, (GenV, ListIter, LiveIter)):
            out = []
            while True:
                ok, x = v.next()
                if not ok:
                    return out
                out.append(x)
                if len(out) > 5000:
                    raise Unsupported('very long iteration')
        if isinstance(v, Obj):
            m = v.cls.lookup('__iter__')
            if m is not NOTFOUND:
                return self.to_list(self.call(BoundV(m, v), [], {}))
        if isinstance(v, NativeObj) and hasattr(v, 'iterate'):
            return v.iterate(self)
        if isinstance(v, SymIter):
            raise SymLen(v)
        if v is None or is_int(v) or isinstance(v, (ClassV, FuncV)) \
                or isinstance(v, Obj):
            raise_exc('TypeError', 'object is not iterable')
        raise Unsupported('iteration over %r' % (v,))

    # -- expressions
    def eval(self, n, fr):
        m = getattr(self, 'e_' + n.__class__.__name__, None)
        if m is None:
            raise Unsupported('expression %s' % n.__class__.__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, bytes):
            return S.from_native(v)
        if v is Ellipsis:
            raise Unsupported('ellipsis')
        return v

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr.env)

    def e_Tuple(self, n, fr):
        return tuple(self.eval_elts(n.elts, fr))

    def eval_elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.to_list(self.eval(e.value, fr)))
            else:
                out.append(self.eval(e, fr))
        return out

    def e_List(self, n, fr):
        return Seq.units('list', self.eval_elts(n.elts, fr))

    def e_Set(self, n, fr):
        return SetV(self.eval_elts(n.elts, fr))

    def e_Dict(self, n, fr):
        d = DictV()
        for k, v in zip(n.keys, n.values):
            if k is None:
                for k2, v2 in self.eval(v, fr).items():
                    d.set(k2, v2)
            else:
                d.set(self.eval(k, fr), self.eval(v, fr))
        return d

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        return self.getitem(o, n.slice, fr)

    def e_IfExp(self, n, fr):
        if self.truth(self.eval(n.test, fr)):
            return self.eval(n.body, fr)
        return self.eval(n.orelse, fr)

    def e_BoolOp(self, n, fr):
        v = None
        if isinstance(n.op, ast.And):
            for e in n.values:
                v = self.eval(e, fr)
                if e is n.values[-1]:
                    return v
                if not self.truth(v):
                    return False if isinstance(v, SBool) else v
        else:
            for e in n.values:
                v = self.eval(e, fr)
                if e is n.values[-1]:
                    return v
                if self.truth(v):
                    return True if isinstance(v, SBool) else v
        return v

    def e_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            v = self.eval(n.operand, fr)
            if isinstance(v, SBool):
                return neg(v)
            return not self.truth(v)
        v = promote(self.eval(n.operand, fr))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return arith('-', 0, v)
        if isinstance(n.op, ast.Invert):
            if isinstance(v, int):
                return ~v
            return arith('-', -1, v)
        return v

    def e_BinOp(self, n, fr):
        x = self.eval(n.left, fr)
        y = self.eval(n.right, fr)
        return self.binop(BINOPS[n.op.__class__], x, y)

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if len(n.ops) == 1:
                return c
            if not self.truth(c):
                return False
            res = c
            left = right
        return True if isinstance(res, SBool) else res

    def compare(self, op, x, y):
        o = op.__class__
        if o is ast.Eq:
            return values_equal(x, y)
        if o is ast.NotEq:
            if isinstance(x, Obj):
                m = x.cls.lookup('__ne__')
                if m is not NOTFOUND and not isinstance(m, Builtin):
                    return self.call(BoundV(m, x), [y], {})
            return neg(values_equal(x, y))
        if o is ast.Is:
            return self.identical(x, y)
        if o is ast.IsNot:
            return neg(self.identical(x, y))
        if o is ast.In:
            return self.contains(y, x)
        if o is ast.NotIn:
            return neg(self.contains(y, x))
        s = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[o]
        return self.order(s, x, y)

    def order(self, s, x, y):
        xx, yy = promote(x), promote(y)
        if (is_int(xx) or isinstance(xx, float)) \
                and (is_int(yy) or isinstance(yy, float)):
            return compare(s, xx, yy)
        if isinstance(xx, SReal) and (is_int(yy) or isinstance(yy, float)) \
                or isinstance(yy, SReal) and (is_int(xx) or isinstance(
                    xx, (float, SReal))):
            return compare(s, xx, yy)
        if isinstance(x, Obj):
            m = x.cls.lookup({'<': '__lt__', '<=': '__le__', '>': '__gt__',
                              '>=': '__ge__'}[s])
            if m is not NOTFOUND:
                return self.call(BoundV(m, x), [y], {})
        if isinstance(y, Obj):
            m = y.cls.lookup({'<': '__gt__', '<=': '__ge__', '>': '__lt__',
                              '>=': '__le__'}[s])
            if m is not NOTFOUND:
                return self.call(BoundV(m, y), [x], {})
        if isinstance(x, NativeObj) and hasattr(x, 'order'):
            return x.order(s, y)
        if isinstance(x, str) and isinstance(y, str):
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[s]
        if isinstance(x, (Seq, str)) and isinstance(y, (Seq, str)):
            x, y = S.str_seq(x), S.str_seq(y)
            if (x.kind in BYTE_KINDS) == (y.kind in BYTE_KINDS):
                return self.seq_order(s, x, y)
        if isinstance(x, SetV) and isinstance(y, SetV):
            sub_ = all(y.has(k) for k in x.items())
            sup = all(x.has(k) for k in y.items())
            return {'<=': sub_, '>=': sup, '<': sub_ and not sup,
                    '>': sup and not sub_}[s]
        if isinstance(x, tuple) and isinstance(y, tuple):
            for a_, b_ in zip(x, y):
                if not self.truth(values_equal(a_, b_)):
                    return self.order(s, a_, b_)
            return {'<': len(x) < len(y), '<=': len(x) <= len(y),
                    '>': len(x) > len(y), '>=': len(x) >= len(y)}[s]
        if x is None or y is None or type_of(x) is not type_of(y):
            raise_exc('TypeError', "'%s' not supported between instances"
                      % s)
        raise Unsupported('ordering of %r and %r' % (x, y))

    def seq_order(self, s, x, y):
        if x.is_concrete() and y.is_concrete():
            a_, b_ = x.unit_vals(), y.unit_vals()
            return {'<': a_ < b_, '<=': a_ <= b_, '>': a_ > b_,
                    '>=': a_ >= b_}[s]
        if x.is_units() and y.is_units():
            for a_, b_ in zip(x.unit_vals(), y.unit_vals()):
                if not self.truth(values_equal(a_, b_)):
                    return self.order(s, a_, b_)
            return compare(s, x.length(), y.length())
        raise Unsupported('lexicographic order of symbolic sequences')

    def identical(self, x, y):
        if isinstance(x, SBool) and isinstance(y, bool):
            return x if y else neg(x)
        if is_int(x) and is_int(y) and not isinstance(x, bool) \
                and not isinstance(y, bool):
            return eq(x, y)
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        return x is y

    def contains(self, c, x):
        if isinstance(c, (DictV,)):
            return c.find(x) is not None
        if isinstance(c, SetV):
            return c.has(x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (str, Seq)):
            c = S.str_seq(c)
            if c.kind == 'str' or (c.kind in BYTE_KINDS
                                   and isinstance(x, Seq)):
                return self.substring(c, x)
            if c.kind == 'list' or c.kind in BYTE_KINDS:
                return disj_lazy([(lambda e=e: values_equal(e, x))
                                  for e in self.to_list(c)])
        if isinstance(c, tuple):
            return disj_lazy([(lambda e=e: values_equal(e, x)) for e in c])
        if isinstance(c, RangeV):
            if all(isinstance(v, int) for v in (c.start, c.stop, c.step)) \
                    and isinstance(x, int):
                return x in range(c.start, c.stop, c.step)
            if c.step == 1:
                return conj([compare('<=', c.start, x),
                             compare('<', x, c.stop)])
        if isinstance(c, Obj):
            m = c.cls.lookup('__contains__')
            if m is not NOTFOUND:
                r = self.call(BoundV(m, c), [x], {})
                return r if isinstance(r, SBool) else self.truth(r)
            return disj_lazy([(lambda e=e: values_equal(e, x))
                              for e in self.to_list(c)])
        if isinstance(c, (GenV, ListIter, LiveIter)):
            return disj_lazy([(lambda e=e: values_equal(e, x))
                              for e in self.to_list(c)])
        if c is None or is_int(c):
            raise_exc('TypeError', 'argument is not iterable')
        if isinstance(c, NativeObj) and hasattr(c, 'contains'):
            return c.contains(self, x)
        raise Unsupported('membership in %r' % (c,))

    def substring(self, c, x):
        x = S.str_seq(x)
        if c.is_concrete() and x.is_concrete():
            return bytes_or_str(x) in bytes_or_str(c)
        if c.is_units() and x.is_units():
            a_, b_ = c.unit_vals(), x.unit_vals()
            return disj([conj([eq(a_[i + j], b_[j])
                               for j in range(len(b_))])
                         for i in range(len(a_) - len(b_) + 1)])
        raise Unsupported('substring search in a symbolic sequence')

    def e_Lambda(self, n, fr):
        node = ast.FunctionDef(name='<lambda>', args=n.args,
                               body=[ast.Return(value=n.body)],
                               decorator_list=[])
        ast.copy_location(node, n)
        ast.fix_missing_locations(node)
        return self.make_function(node, fr, '<lambda>')

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, fr)
                if v.conversion == 114:
                    parts.append(self.to_repr(x))
                else:
                    parts.append(self.format_one(x, spec))
        return self.concat_strs(parts)

    def concat_strs(self, parts):
        if all(isinstance(x, str) for x in parts):
            return ''.join(parts)
        r = Seq('str')
        for x in parts:
            r.extend_segs(S.str_seq(x).segs)
        return S.simplify_str(r)

    def e_Starred(self, n, fr):
        raise Unsupported('starred')

    def e_ListComp(self, n, fr):
        r = self.comp(n, fr, lambda env_fr: self.eval(n.elt, env_fr))
        if isinstance(r, list):
            return Seq.units('list', r)
        return r

    def e_SetComp(self, n, fr):
        return SetV(self.comp(n, fr, lambda f: self.eval(n.elt, f)))

    def e_GeneratorExp(self, n, fr):
        r = self.comp(n, fr, lambda f: self.eval(n.elt, f), gen=True)
        if isinstance(r, list):
            return ListIter(r)
        if isinstance(r, LazyGen):
            return r
        return r

    def e_DictComp(self, n, fr):
        d = DictV()
        for k, v in self.comp(n, fr, lambda f: (self.eval(n.key, f),
                                                self.eval(n.value, f))):
            d.set(k, v)
        return d

    def comp(self, n, fr, elt, gen=False):
        first = self.eval(n.generators[0].iter, fr)
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        env = Env(fr.env, fr.env.module, names)
        cfr = Frame(fr.func, env, fr.gen)
        items = self.iter_concrete(first)
        if items is None:
            if len(n.generators) == 1 and not n.generators[0].ifs:
                return self.sym_comp(n, first, cfr, elt)
            raise Unsupported('comprehension over symbolic length')
        out = []

        def rec(gi, it):
            g = n.generators[gi]
            while True:
                ok, v = it.next()
                if not ok:
                    return
                self.assign(g.target, v, cfr)
                if all(self.truth(self.eval(c, cfr)) for c in g.ifs):
                    if gi + 1 == len(n.generators):
                        out.append(elt(cfr))
                    else:
                        nxt = self.eval(n.generators[gi + 1].iter, cfr)
                        it2 = self.iter_concrete(nxt)
                        if it2 is None:
                            raise Unsupported('nested symbolic '
                                              'comprehension')
                        rec(gi + 1, it2)
        rec(0, items)
        return out

    def sym_comp(self, n, it, cfr, elt):
        from .loops import iter_at
        count, at = iter_at(self, it)
        g = n.generators[0]
        snap = snapshot_env(cfr.env)

        def fn(i):
            env = Env(snap, cfr.env.module, cfr.env.names)
            f2 = Frame(cfr.func, env)
            self.assign(g.target, at(i), f2)
            saved = cfr.env
            return elt(f2)
        p = cur()
        if p.branch(compare('<=', count, 0)):
            return Seq('list')
        # an element that fails is found at some index
        i = fresh_int('ci', 0)
        p.add(compare('<', i, count))
        fn(i)
        return Seq('list', [S.C(fn, 0, count,
                                p.fresh_name('comp@%s:%d' % (
                                    cfr.env.module.name, n.lineno)))])

    def e_Yield(self, n, fr):
        v = None if n.value is None else self.eval(n.value, fr)
        if fr.gen is None:
            raise Unsupported('yield')
        fr.gen.emit(v)
        return None

    def e_YieldFrom(self, n, fr):
        it = self.eval(n.value, fr)
        it = self.iter_concrete(it)
        if it is None:
            raise Unsupported('yield from symbolic')
        while True:
            ok, v = it.next()
            if not ok:
                return None
            fr.gen.emit(v)

    def e_Call(self, n, fr):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == 'super' \
                and not n.args:
            f = fr.func
            if f is None or f.cls is None:
                raise Unsupported('super()')
            first = f.node.args.args[0].arg
            return SuperV(f.cls, fr.env.vars[first])
        if isinstance(n.func, ast.Name) and n.func.id == 'locals' \
                and not n.args:
            return DictV(list(fr.env.vars.items()))
        f = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.to_list(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, DictV):
                    for kk, vv in v.items():
                        kwargs[kk] = vv
                else:
                    raise Unsupported('**')
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    # -- truth
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, SBool):
            return cur().branch(v)
        if isinstance(v, int):
            return v != 0
        if isinstance(v, (SInt, BInt)):
            return cur().branch(neg(eq(v, 0)))
        if isinstance(v, (str, tuple, float)):
            return bool(v)
        if isinstance(v, Seq):
            return cur().branch(compare('>', v.length(), 0))
        if isinstance(v, DictV):
            return len(v.keys_) > 0
        if isinstance(v, SetV):
            return len(v.items()) > 0
        if isinstance(v, Obj):
            m = v.cls.lookup('__bool__')
            if m is not NOTFOUND:
                return self.truth(self.call(BoundV(m, v), [], {}))
            m = v.cls.lookup('__len__')
            if m is not NOTFOUND:
                return self.truth(self.call(BoundV(m, v), [], {}))
            return True
        if isinstance(v, SReal):
            return cur().branch(neg(eq(v.num, 0)))
        if isinstance(v, NativeObj) and hasattr(v, 'truth'):
            return self.truth(v.truth(self))
        if isinstance(v, RangeV):
            return self.truth(neg(eq(v.count(), 0)))
        if isinstance(v, ExtV):
            raise Unsupported('truth of external %s' % v.name)
        return True

    # -- attributes
    def getattr(self, o, name):
        r = self.getattr_or(o, name)
        if r is NOTFOUND:
            raise_exc('AttributeError', "%r has no attribute '%s'"
                      % (o, name))
        return r

    def getattr_or(self, o, name):
        if name == '__class__' and isinstance(o, NativeObj):
            return native_class(type(o), o)
        if isinstance(o, Obj):
            c = o.cls.lookup(name)
            if isinstance(c, PropV):
                if c.fget is None:
                    raise_exc('AttributeError', 'unreadable attribute')
                return self.call(c.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if c is not NOTFOUND:
                return self.bind(c, o, o.cls)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return DictV(list(o.attrs.items()))
            g = o.cls.lookup('__getattr__')
            if g is not NOTFOUND:
                return self.call(BoundV(g, o), [name], {})
            if EXC['BaseException'] in o.cls.mro and name == 'args':
                return o.attrs.get('args', ())
            if self.has_ext_base(o.cls):
                raise Unsupported('attribute %s of external base class'
                                  % name)
            if name == '__init__':
                return Builtin('__init__', lambda i, a, k: None)
            return NOTFOUND
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__module__':
                return o.module
            if name == '__bases__':
                return tuple(o.bases)
            c = o.lookup(name)
            if c is NOTFOUND:
                if name == '__init__':
                    if EXC['BaseException'] in o.mro:
                        def init(i, a, k):
                            a[0].attrs['args'] = tuple(a[1:])
                        return Builtin('__init__', init)
                    return Builtin('__init__', lambda i, a, k: None)
                if name == '__new__':
                    return Builtin('__new__',
                                   lambda i, a, k: Obj(a[0]))
                if self.has_ext_base(o):
                    raise Unsupported('attribute %s of external base'
                                      % name)
                return NOTFOUND
            if isinstance(c, ClassMethodV):
                return BoundV(c.f, o)
            if isinstance(c, StaticV):
                return c.f
            return c
        if isinstance(o, SuperV):
            cls = o.obj.cls if isinstance(o.obj, Obj) else o.obj
            mro = cls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(o.obj, Obj):
                        if isinstance(v, PropV):
                            return self.call(v.fget, [o.obj], {})
                        return self.bind(v, o.obj, cls)
                    if isinstance(v, ClassMethodV):
                        return BoundV(v.f, o.obj)
                    if isinstance(v, StaticV):
                        return v.f
                    return v
            for c in mro[i:]:
                for x in c.bases:
                    if isinstance(x, (ExtV, NativeType, TypeV)):
                        raise Unsupported('super() of external class')
            if name == '__init__':
                if EXC['BaseException'] in mro:
                    def init(i_, a, k, o=o):
                        o.obj.attrs['args'] = tuple(a)
                    return Builtin('__init__', init)
                return Builtin('__init__', lambda i_, a, k: None)
            if name == '__eq__':
                return Builtin('__eq__',
                               lambda i_, a, k: True if a[0] is o.obj
                               else NOTIMPL)
            if name == '__repr__':
                return Builtin('__repr__', lambda i_, a, k: repr(o.obj))
            if name == '__setattr__':
                return Builtin('__setattr__',
                               lambda i_, a, k: o.obj.attrs.__setitem__(
                                   a[0], a[1]))
            if name == '__new__':
                return Builtin('__new__', lambda i_, a, k: Obj(a[0]))
            return NOTFOUND
        if isinstance(o, ModuleV):
            if name in o.ns:
                return o.ns[name]
            full = o.name + '.' + name
            if full in self.models or self.find(full):
                return self.load(full)
            if getattr(o, 'ext', False):
                return ExtV(full)
            return NOTFOUND
        if isinstance(o, ExtV):
            if o.name + '.' + name in self.models:
                return self.load(o.name + '.' + name)
            if name in ('__name__',):
                return o.name
            return ExtV(o.name + '.' + name)
        if isinstance(o, PropV):
            if name == '__get__':
                return Builtin('__get__', lambda i, a, k:
                               self.call(o.fget, [a[0]], {}))
            if name == 'fget':
                return o.fget
            if name == 'fset':
                return o.fset
            if name in ('setter', 'getter', 'deleter'):
                def setter(i, a, k):
                    p = PropV(o.fget, o.fset, o.fdel)
                    setattr(p, {'setter': 'fset', 'getter': 'fget',
                                'deleter': 'fdel'}[name], a[0])
                    return p
                return Builtin(name, setter)
        if isinstance(o, NativeObj):
            m = getattr(o, 'm_' + name, None)
            if m is not None:
                return Builtin(name, lambda i, a, k: m(i, *a, **k))
            a_ = getattr(o, 'attrs', None)
            if a_ is not None and name in a_:
                return a_[name]
            g = getattr(o, 'get_attr', None)
            if g is not None:
                return g(self, name)
            return NOTFOUND
        if isinstance(o, NativeType):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__init__':
                raise Unsupported('%s.__init__' % o.name)
            if name == '__name__':
                return o.name
            return NOTFOUND
        if isinstance(o, (FuncV, BoundV, Builtin)):
            f = o.func if isinstance(o, BoundV) else o
            if name == '__name__':
                return f.name
            if isinstance(f, FuncV) and name in f.attrs:
                return f.attrs[name]
            if name == '__func__' and isinstance(o, BoundV):
                return o.func
            if name == '__doc__':
                return None
            return NOTFOUND
        from . import models as M
        return M.native_attr(self, o, name)

    def has_ext_base(self, cls):
        return any(isinstance(x, (ExtV, NativeType, TypeV))
                   for c in cls.mro for x in c.bases)

    def bind(self, c, o, cls):
        if isinstance(c, FuncV):
            return BoundV(c, o)
        if isinstance(c, ClassMethodV):
            return BoundV(c.f, cls)
        if isinstance(c, StaticV):
            return c.f
        if isinstance(c, PropV):
            return self.call(c.fget, [o], {})
        return c

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            c = o.cls.lookup(name)
            if isinstance(c, PropV):
                if c.fset is None:
                    raise_exc('AttributeError', "can't set attribute")
                self.call(c.fset, [o, v], {})
                return
            s = o.cls.lookup('__setattr__')
            if s is not NOTFOUND:
                self.call(BoundV(s, o), [name, v], {})
                return
            o.attrs[name] = v
            return
        if isinstance(o, ClassV):
            o.ns[name] = v
            return
        if isinstance(o, ModuleV):
            o.ns[name] = v
            return
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        if isinstance(o, NativeObj):
            s = getattr(o, 'set_attr', None)
            if s is not None:
                s(self, name, v)
                return
            raise_exc('AttributeError', name)
        if isinstance(o, SuperV):
            raise_exc('AttributeError',
                      "'super' object has no attribute '%s'" % name)
        if o is None or isinstance(o, (Seq, str, int, tuple)):
            raise_exc('AttributeError', name)
        raise Unsupported('setattr on %r' % (o,))

    # -- items
    def eval_slice(self, sl, fr):
        lo = None if sl.lower is None else self.eval(sl.lower, fr)
        hi = None if sl.upper is None else self.eval(sl.upper, fr)
        st = None if sl.step is None else self.eval(sl.step, fr)
        return lo, hi, st

    def index_value(self, v):
        v = promote(v)
        if isinstance(v, (SReal, float)):
            raise_exc('TypeError', 'slice indices must be integers')
        if v is not None and not is_int(v):
            raise_exc('TypeError', 'indices must be integers')
        return v

    def getitem(self, o, sl, fr):
        if isinstance(sl, ast.Slice):
            lo, hi, st = self.eval_slice(sl, fr)
            return self.slice(o, lo, hi, st)
        return self.index(o, self.eval(sl, fr))

    def slice(self, o, lo, hi, st):
        lo, hi = self.index_value(lo), self.index_value(hi)
        if isinstance(o, (str, tuple)) and all(
                x is None or isinstance(x, int) for x in (lo, hi, st)):
            return o[lo:hi:st]
        if isinstance(o, str):
            o = S.str_seq(o)
        if isinstance(o, Seq):
            if st == -1 and lo is None and hi is None \
                    and not isinstance(o.length(), int):
                return S.simplify_str(S.reverse(o))
            if st is not None and st != 1:
                items = self.to_list(o)
                if o.kind == 'str':
                    items = S.str_seq(o).unit_vals()
                if any(x is not None and not isinstance(x, int)
                       for x in (lo, hi, st)):
                    raise Unsupported('symbolic extended slice')
                return S.simplify_str(Seq.units(o.kind, items[lo:hi:st]))
            if o.is_units() and all(x is None or isinstance(x, int)
                                    for x in (lo, hi)):
                r = Seq.units(o.kind, o.unit_vals()[lo:hi])
            else:
                r = S.slice_seq(o, lo, hi)
            return S.simplify_str(r)
        if isinstance(o, Obj):
            m = o.cls.lookup('__getitem__')
            if m is not NOTFOUND:
                raise Unsupported('slice of object')
        if o is None or is_int(o):
            raise_exc('TypeError', 'object is not subscriptable')
        raise Unsupported('slice of %r' % (o,))

    def index(self, o, i):
        if isinstance(o, DictV):
            j = o.find(i)
            if j is None:
                if o.cls is not None and 'default_factory' in o.cls:
                    v = self.call(o.cls['default_factory'], [], {})
                    o.set(i, v)
                    return v
                raise_exc('KeyError', i)
            return o.vals[j]
        if isinstance(o, (str, tuple)):
            i = self.index_value(i)
            if not isinstance(i, int):
                if isinstance(o, tuple):
                    if all(type(v) is int for v in o):
                        return self.index(Seq.units('list', o), i)
                    i = core.concretize(
                        S._bound(i, -len(o), len(o) - 1))
                else:
                    return self.index(S.str_seq(o), i)
            try:
                return o[i]
            except IndexError:
                raise_exc('IndexError', 'index out of range')
        if isinstance(o, Seq):
            i = self.index_value(i)
            p = cur()
            n = o.length()
            if isinstance(i, int) and i < 0 or not isinstance(i, int) \
                    and p.branch(compare('<', i, 0)):
                i = add(i, n)
                if p.branch(compare('<', i, 0)):
                    raise_exc('IndexError', 'index out of range')
            if p.branch(compare('>=', i, n)):
                raise_exc('IndexError', 'index out of range')
            if not isinstance(i, int) and o.is_units() \
                    and o.kind != 'str':
                vals = o.unit_vals()
                if all(type(v) is int for v in vals) and len(vals) > 8 \
                        and min(vals) >= 0:
                    return S.table_lookup(vals, i)
            v = o.get(i)
            return self.wrap_elem(o, v)
        if isinstance(o, Obj):
            m = o.cls.lookup('__getitem__')
            if m is not NOTFOUND:
                return self.call(BoundV(m, o), [i], {})
        if isinstance(o, NativeObj) and hasattr(o, 'getitem'):
            return o.getitem(self, i)
        if isinstance(o, RangeV):
            return o.at(i)
        if o is None or is_int(o) or isinstance(o, (Obj, SetV, FuncV)):
            raise_exc('TypeError', 'object is not subscriptable')
        raise Unsupported('index of %r' % (o,))

    def setitem(self, o, sl, v, fr):
        if isinstance(sl, ast.Slice):
            lo, hi, st = self.eval_slice(sl, fr)
            if isinstance(o, Seq) and o.kind in ('list', 'bytearray') \
                    and st is None:
                n = o.length()
                head = S.slice_seq(o, 0, lo) if lo is not None else Seq(
                    o.kind)
                if lo is not None and hi is not None and cur().branch(
                        compare('<', hi, lo)):
                    hi = lo
                tail = S.slice_seq(o, hi, None) if hi is not None else Seq(
                    o.kind)
                mid = self.to_seq(v, o.kind)
                o.segs = head.segs + mid.segs + tail.segs
                o.normalize()
                return
            raise Unsupported('slice assignment')
        self.setindex(o, self.eval(sl, fr), v)

    def setindex(self, o, i, v):
        if isinstance(o, DictV):
            o.set(i, v)
            return
        if isinstance(o, Seq):
            if o.kind in ('bytes', 'str'):
                raise_exc('TypeError', 'does not support item assignment')
            i = self.index_value(i)
            p = cur()
            n = o.length()
            if p.branch(compare('<', i, 0)):
                i = add(i, n)
                if p.branch(compare('<', i, 0)):
                    raise_exc('IndexError', 'index out of range')
            if p.branch(compare('>=', i, n)):
                raise_exc('IndexError', 'assignment index out of range')
            if o.kind == 'bytearray':
                v = self.check_byte(v)
            if o.is_units():
                i = core.concretize(S._bound(i, 0, n - 1)
                                    if isinstance(n, int) else i)
                vals = o.unit_vals()
                vals[i] = v
                o.segs = [S.U(tuple(vals))]
                return
            left, right = o.split(i)
            _, right = Seq(o.kind, right).split(1)
            o.segs = left + [S.U((v,))] + right
            o.normalize()
            return
        if isinstance(o, Obj):
            m = o.cls.lookup('__setitem__')
            if m is not NOTFOUND:
                self.call(BoundV(m, o), [i, v], {})
                return
        if isinstance(o, NativeObj) and hasattr(o, 'setitem'):
            o.setitem(self, i, v)
            return
        if o is None or isinstance(o, (tuple, str)) or is_int(o):
            raise_exc('TypeError', 'does not support item assignment')
        raise Unsupported('item assignment on %r' % (o,))

    def delitem(self, o, sl, fr):
        if isinstance(sl, ast.Slice):
            lo, hi, st = self.eval_slice(sl, fr)
            if isinstance(o, Seq) and st is None:
                head = S.slice_seq(o, 0, lo) if lo is not None else Seq(
                    o.kind)
                tail = S.slice_seq(o, hi, None) if hi is not None else Seq(
                    o.kind)
                o.segs = head.segs + tail.segs
                return
            raise Unsupported('del slice')
        i = self.eval(sl, fr)
        if isinstance(o, DictV):
            o.delete(i)
            return
        if isinstance(o, Seq) and o.kind in ('list', 'bytearray'):
            if o.is_units() and isinstance(i, int):
                vals = o.unit_vals()
                try:
                    del vals[i]
                except IndexError:
                    raise_exc('IndexError', '')
                o.segs = [S.U(tuple(vals))] if vals else []
                return
        if isinstance(o, Obj):
            m = o.cls.lookup('__delitem__')
            if m is not NOTFOUND:
                self.call(BoundV(m, o), [i], {})
                return
        raise Unsupported('del item')

    def check_byte(self, v):
        v = promote(v)
        if isinstance(v, (float, str, Seq)) or v is None or not is_int(v):
            raise_exc('TypeError', 'an integer is required')
        ok = conj([compare('<=', 0, v), compare('<=', v, 255)])
        if ok is True:
            return v
        if not cur().branch(ok):
            raise_exc('ValueError', 'byte must be in range(0, 256)')
        if isinstance(v, SInt):
            return SInt(v.e, max(0, v.lo or 0),
                        255 if v.hi is None else min(255, v.hi))
        if isinstance(v, BInt):
            hi = min(v.hi, 255)
            lo = max(0, v.lo)
            w = core.bits_for(lo, hi)
            return core.bmk(core.bext(v, max(w, 1)), lo, hi)
        return v

    def to_seq(self, v, kind):
        """sequence of elements for extending a list/bytearray/bytes"""
        if isinstance(v, Seq):
            if v.kind == 'str':
                if kind in BYTE_KINDS:
                    raise_exc('TypeError', 'expected iterable of integers')
                return Seq.units('list', self.to_list(v))
            if kind in BYTE_KINDS and v.kind == 'list':
                if v.is_units():
                    return Seq.units(kind, [self.check_byte(x)
                                            for x in v.unit_vals()])
                segs = []
                for g in v.segs:
                    if isinstance(g, S.U):
                        segs.append(S.U(tuple(self.check_byte(x)
                                              for x in g.vals)))
                    elif isinstance(g, S.C):
                        self.check_comp_bytes(g)
                        segs.append(g)
                    elif isinstance(g, S.R):
                        segs.append(S.R(self.check_byte(g.val), g.n))
                    elif isinstance(g, S.A) and g.base.elem == 'byte':
                        segs.append(g)
                    else:
                        raise Unsupported('octets from %r' % (g,))
                return Seq(kind, segs)
            return Seq(kind, v.segs)
        if isinstance(v, str):
            if kind in BYTE_KINDS:
                raise_exc('TypeError', 'expected iterable of integers')
            return Seq.units('list', list(v))
        if v is None or is_int(v):
            raise_exc('TypeError', 'object is not iterable')
        if isinstance(v, SymIter):
            from .loops import iter_at
            count, at = iter_at(self, v)
            if v.effects is not None:
                from .loops import generic_octets
                return generic_octets(self, v, count, at, kind)
            g = S.C(at, 0, count, cur().fresh_name('map'))
            if kind in BYTE_KINDS:
                self.check_comp_bytes(g)
            return Seq(kind, [g])
        if isinstance(v, Obj) and kind in BYTE_KINDS:
            m = v.cls.lookup('__bytes__')
            it = v.cls.lookup('__iter__')
            if m is not NOTFOUND and it is NOTFOUND:
                raise_exc('TypeError', 'cannot convert object to bytes')
        items = self.to_list(v)
        if kind in BYTE_KINDS:
            items = [self.check_byte(x) for x in items]
        return Seq.units(kind, items)

    def check_comp_bytes(self, g):
        """every element of a comprehension fits an octet"""
        p = cur()
        if p.branch(compare('<=', g.n, 0)):
            return
        i = fresh_int('ci', 0)
        p.add(compare('<', i, g.n))
        e = g.fn(add(g.start, i))
        ok = conj([compare('<=', 0, e), compare('<=', e, 255)])
        if ok is True:
            return
        if not p.branch(ok):
            raise_exc('ValueError', 'byte must be in range(0, 256)')

    def seq_extend(self, x, y):
        t = self.to_seq(y, x.kind)
        x.extend_segs(t.segs)

    # -- operators
    def binop(self, op, x, y):
        x, y = promote(x), promote(y)
        if is_int(x) and is_int(y):
            if op == '/':
                if isinstance(x, int) and isinstance(y, int):
                    if y == 0:
                        raise_exc('ZeroDivisionError', '')
                    return x / y
                return self.real_op(op, x, y)
            if op in ('//', '%') and isinstance(y, int) and y == 0:
                raise_exc('ZeroDivisionError', '')
            if op in ('//', '%') and not isinstance(y, int):
                if cur().branch(eq(y, 0)):
                    raise_exc('ZeroDivisionError', '')
            if op in ('<<', '>>') and isinstance(y, int) and y < 0:
                raise_exc('ValueError', 'negative shift count')
            return arith(op, x, y)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            try:
                return PYOPS[op](x, y)
            except ZeroDivisionError:
                raise_exc('ZeroDivisionError', '')
            except TypeError as e:
                raise_exc('TypeError', str(e))
        if isinstance(x, float) and is_int(y) or is_int(x) \
                and isinstance(y, float) or isinstance(x, SReal) \
                or isinstance(y, SReal):
            return self.real_op(op, x, y)
        if op == '%' and isinstance(x, (str,)):
            return self.percent_format(x, y)
        xs, ys = isinstance(x, (str, Seq)), isinstance(y, (str, Seq))
        if xs and ys and op == '+':
            if isinstance(x, str) and isinstance(y, str):
                return x + y
            x, y = S.str_seq(x), S.str_seq(y)
            ok = x.kind == y.kind or (x.kind in BYTE_KINDS
                                      and y.kind in BYTE_KINDS)
            if not ok:
                raise_exc('TypeError', "can't concat %s to %s"
                          % (y.kind, x.kind))
            r = Seq(x.kind, x.segs + y.segs)
            r.normalize()
            return S.simplify_str(r)
        if op == '*' and (xs and is_int(y) or ys and is_int(x)):
            if ys:
                x, y = y, x
            return self.repeat(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple) and op == '+':
            return x + y
        if isinstance(x, tuple) and isinstance(y, int) and op == '*':
            return x * y
        if isinstance(x, SetV) and isinstance(y, SetV):
            xi, yi = x.items(), y.items()
            if op == '|':
                return SetV(xi + yi)
            if op == '&':
                return SetV([k for k in xi if y.has(k)])
            if op == '-':
                return SetV([k for k in xi if not y.has(k)])
            if op == '^':
                return SetV([k for k in xi if not y.has(k)]
                            + [k for k in yi if not x.has(k)])
        for u, v, d in ((x, y, OPM), (y, x, ROPM)):
            if isinstance(u, Obj):
                m = u.cls.lookup(d.get(op, '?'))
                if m is not NOTFOUND:
                    r = self.call(BoundV(m, u), [v], {})
                    if r is not NOTIMPL:
                        return r
            if isinstance(u, NativeObj) and hasattr(u, 'binop'):
                r = u.binop(op, v, d is ROPM)
                if r is not NOTIMPL:
                    return r
        if isinstance(x, ExtV) or isinstance(y, ExtV):
            raise Unsupported('operator %s on external' % op)
        raise_exc('TypeError', 'unsupported operand type(s) for %s: %s and %s'
                  % (op, type_of(x), type_of(y)))

    def real_op(self, op, x, y):
        if isinstance(x, float) and x == int(x):
            x = int(x)
        if isinstance(y, float) and y == int(y):
            y = int(y)
        if op == '/':
            if isinstance(x, SReal) and isinstance(y, int) and y > 0:
                return SReal(x.num, x.den * y)
            if is_int(x) and isinstance(y, int) and y > 0:
                return SReal(x, y)
            if isinstance(x, SReal):
                if not (type(x.den) is int and x.den == 1):
                    raise Unsupported('floating point arithmetic')
                x = x.num
            if isinstance(y, SReal):
                if not (type(y.den) is int and y.den == 1):
                    raise Unsupported('floating point arithmetic')
                y = y.num
            if is_int(x) and is_int(y):
                if cur().branch(eq(y, 0)):
                    raise_exc('ZeroDivisionError', 'division by zero')
                if not cur().prove(conj([
                        compare('>', y, 0), compare('<', y, 2 ** 53),
                        compare('<=', 0, x), compare('<', x, 2 ** 53)])):
                    raise Unsupported('inexact floating point division')
                return SReal(x, y)
        if op in '+-*' and isinstance(getattr(x, 'den', 1), int) and isinstance(x, SReal) and isinstance(y, int):
            if op == '*':
                return SReal(arith('*', x.num, y), x.den)
            return SReal(arith(op, x.num, y * x.den), x.den)
        if op == '+' and isinstance(y, SReal) and isinstance(x, int):
            return self.real_op(op, y, x)
        if is_int(x) and is_int(y) and op in '+-*':
            return SReal(arith(op, x, y), 1)
        raise Unsupported('floating point arithmetic')

    def repeat(self, x, n):
        if isinstance(x, str) and isinstance(n, int):
            return x * n
        x = S.str_seq(x)
        if isinstance(n, int):
            if n <= 0:
                return S.simplify_str(Seq(x.kind))
            if len(x.segs) == 1 and isinstance(x.segs[0], S.U) \
                    and len(x.segs[0].vals) == 1 and n > 64:
                return Seq(x.kind, [S.R(x.segs[0].vals[0], n)])
            if n <= 300:
                r = Seq(x.kind, x.segs * n)
                return S.simplify_str(r.normalize())
            return Seq(x.kind, [S.C(cyc(x), 0, arith('*', x.length(), n),
                                    cur().fresh_name('rep'))])
        if cur().branch(compare('<=', n, 0)):
            return S.simplify_str(Seq(x.kind))
        x = Seq(x.kind, x.segs).normalize()
        if len(x.segs) == 1 and isinstance(x.segs[0], S.U) \
                and len(x.segs[0].vals) == 1:
            hi = bounds(n)[1]
            if hi is not None and hi <= 0:
                k = core.concretize(n if isinstance(n, BInt)
                                    else SInt(n.e, max(1, n.lo or 1), hi))
                return Seq(x.kind, [S.U((x.segs[0].vals[0],) * k)])
            return Seq(x.kind, [S.R(x.segs[0].vals[0], n)])
        if isinstance(x.length(), int) and x.length() == 0:
            return Seq(x.kind)
        S.note_multiple(n, x.length())
        return S.cycle(x, arith_len(x, n), x.kind)

    def percent_format(self, fmt, y):
        args = y if isinstance(y, tuple) else (y,)
        nat = [self.native_or_none(a) for a in args]
        if all(a is not UNK for a in nat):
            try:
                return fmt % (tuple(nat) if isinstance(y, tuple)
                              else nat[0])
            except TypeError as e:
                raise_exc('TypeError', str(e))
        return self.opaque_str('fmt', list(args) + [fmt])

    def native_or_none(self, a):
        if isinstance(a, (int, str, float)) or a is None:
            return a
        if isinstance(a, Seq) and a.is_concrete() and a.kind != 'list':
            return a.native()
        if isinstance(a, Seq) and a.kind == 'list' and a.is_concrete():
            return a.unit_vals()
        if isinstance(a, tuple):
            t = [self.native_or_none(x) for x in a]
            return UNK if any(x is UNK for x in t) else tuple(t)
        return UNK

    def opaque_str(self, name, args):
        p = cur()
        nm = p.fresh_name(name)
        n = fresh_int('len_' + nm, 0)
        return Seq('str', [S.A(S.Base(nm, n, 'char'), 0, n)])

    def format_one(self, x, spec):
        from .models import hexdigit as hexdigit_of
        x = promote(x)
        if isinstance(spec, Seq):
            raise Unsupported('symbolic format spec')
        nat = self.native_or_none(x)
        if nat is not UNK and not isinstance(nat, (list,)):
            try:
                return format(nat, spec)
            except ValueError as e:
                raise_exc('ValueError', str(e))
            except TypeError as e:
                raise_exc('TypeError', str(e))
        if is_int(x) and spec and spec[-1] in 'xX' and spec[0] == '0' \
                and spec[1:-1].isdigit():
            w = int(spec[1:-1])
            lo, hi = bounds(x)
            if lo is None or lo < 0:
                if cur().branch(compare('<', x, 0)):
                    return self.opaque_str('fmt', [x])
            up = spec[-1] == 'X'
            low = Seq.units('str', [
                hexdigit_of(arith('&', arith('>>', x, 4 * (w - 1 - i)), 15),
                            up) for i in range(w)])
            if hi is not None and hi < 16 ** w \
                    or cur().branch(compare('<', x, 16 ** w)):
                return low
            # more digits than asked for: the leading ones, then the low w
            n = sub(core.divc(add(S.bit_length(x), 3), 4), w)
            cur().assume(compare('>', n, 0))

            def digit(j):
                k = add(sub(sub(n, 1), j), w)
                return hexdigit_of(core.modc(promote(core.shr(
                    x, arith('*', k, 4))), 16), up)
            return Seq('str', [S.C(digit, 0, n, 'hex:%s:%d:%s' % (
                spec[-1], w, z(x).sexpr()))] + list(low.segs))
        if isinstance(x, Seq) and x.kind == 'str' and not spec:
            return x
        if isinstance(x, Obj) and not spec:
            return self.to_str(x)
        return self.opaque_str('fmt', [x])

    def to_str(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, Seq) and x.kind == 'str':
            return x
        if isinstance(x, Obj):
            for nm in ('__str__', '__repr__'):
                m = x.cls.lookup(nm)
                if m is not NOTFOUND and not isinstance(m, Builtin):
                    return self.call(BoundV(m, x), [], {})
            if EXC['BaseException'] in x.cls.mro:
                a = x.attrs.get('args', ())
                if len(a) == 1:
                    return self.to_str(a[0])
                return ''
            return '<%s object>' % x.cls.name
        nat = self.native_or_none(promote(x))
        if nat is not UNK:
            return str(nat)
        if isinstance(x, NativeObj) and hasattr(x, 'to_str'):
            return x.to_str(self)
        return self.opaque_str('str', [x])

    def to_repr(self, x):
        if isinstance(x, Obj):
            m = x.cls.lookup('__repr__')
            if m is not NOTFOUND and not isinstance(m, Builtin):
                return self.call(BoundV(m, x), [], {})
            return '<%s object>' % x.cls.name
        nat = self.native_or_none(promote(x))
        if nat is not UNK:
            return repr(nat)
        if isinstance(x, (ClassV, FuncV, Builtin, TypeV)):
            return repr(x)
        return self.opaque_str('repr', [x])

    # -- calls
    def call_method(self, o, name, args, kwargs):
        return self.call(self.getattr(o, name), args, kwargs)

    def call(self, f, args, kwargs):
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, TypeV):
            from . import models as M
            return M.call_type(self, f.name, args, kwargs)
        if isinstance(f, NativeType):
            return f.ctor(self, *args, **kwargs)
        if isinstance(f, ExtV):
            raise Unsupported('call of external %s' % f.name)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m is not NOTFOUND:
                return self.call(BoundV(m, f), args, kwargs)
        if isinstance(f, (StaticV, ClassMethodV)):
            return self.call(f.f, args, kwargs)
        if isinstance(f, NativeObj) and hasattr(f, 'm___call__'):
            return f.m___call__(self, *args, **kwargs)
        raise_exc('TypeError', 'object is not callable')

    def instantiate(self, cls, args, kwargs):
        q = cls.qualname
        c = CONTRACTS.get(q)
        if c is not None and q not in self.nocontract:
            self.used_contracts.add(q)
            return c.apply(self, args, kwargs)
        new = cls.lookup('__new__')
        if new is not NOTFOUND and isinstance(new, (FuncV, StaticV)):
            f = new.f if isinstance(new, StaticV) else new
            o = self.call(f, [cls] + list(args), kwargs)
            if not (isinstance(o, Obj) and cls in o.cls.mro):
                return o
        else:
            o = Obj(cls)
        init = cls.lookup('__init__')
        if init is not NOTFOUND:
            self.call(BoundV(init, o), args, kwargs)
            return o
        if self.has_ext_base(cls):
            for x in (x for c in cls.mro for x in c.bases):
                if isinstance(x, TypeV) and x.name in ('object',):
                    continue
                raise Unsupported('instantiation of a subclass of external '
                                  '%r' % (x,))
        if EXC['BaseException'] in cls.mro:
            o.attrs['args'] = tuple(args)
            return o
        if args or kwargs:
            raise_exc('TypeError', '%s() takes no arguments' % cls.name)
        return o

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg is None:
                raise_exc('TypeError', '%s() takes %d positional arguments '
                          'but %d were given' % (f.name, len(names),
                                                 len(args)))
            rest = args[len(names):]
            args = args[:len(names)]
        else:
            rest = []
        for n, v in zip(names, args):
            vals[n] = v
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                if n in vals:
                    raise_exc('TypeError', '%s() got multiple values for '
                              "argument '%s'" % (f.name, n))
                vals[n] = kwargs.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    raise_exc('TypeError', '%s() missing required argument '
                              "'%s'" % (f.name, n))
                vals[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg not in f.kwdefaults:
                    raise_exc('TypeError', 'missing keyword-only argument')
                vals[x.arg] = f.kwdefaults[x.arg]
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(rest)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DictV(list(kwargs.items()))
        elif kwargs:
            raise_exc('TypeError', "%s() got an unexpected keyword argument "
                      "'%s'" % (f.name, list(kwargs)[0]))
        return vals

    def call_func(self, f, args, kwargs):
        c = CONTRACTS.get(f.qualname)
        if c is not None and f.qualname not in self.nocontract:
            r = c.try_apply(self, f, args, kwargs)
            if r is not NOTFOUND:
                self.used_contracts.add(f.qualname)
                return r
        if f.module.name.startswith('pgp'):
            self.exec_funcs.add(f.qualname)
        if f.locals is None:
            sc = _Scope()
            for s in f.node.body:
                sc.visit(s)
            a = f.node.args
            names = set(sc.names)
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                names.add(x.arg)
            for x in (a.vararg, a.kwarg):
                if x is not None:
                    names.add(x.arg)
            names -= sc.globals
            names -= sc.nonlocals
            f.locals = (names, sc.globals, sc.nonlocals)
            f.isgen = sc.gen
        vals = self.bind_args(f, args, kwargs)
        env = Env(f.env, f.module, f.locals[0])
        env.globals_ = f.locals[1]
        env.nonlocals = f.locals[2]
        env.vars.update(vals)
        if f.isgen:
            return GenV(self, f, env)
        if self.depth > self.MAX_DEPTH:
            raise Unsupported('recursion limit')
        self.depth += 1
        frame = Frame(f, env)
        entry = Env(None, f.module)
        entry.vars = {k: (v.copy() if isinstance(v, Seq) else v)
                      for k, v in vals.items()}
        self.stack.append((f, entry))
        self.envs.append(env)
        try:
            self.exec_block(f.node.body, frame)
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.depth -= 1
            self.stack.pop()
            self.envs.pop()


class LazyGen(object):
    pass


class SymIter(object):
    """iterable of symbolic length: count and at(k)"""

    effects = None      # name of a stateful function applied to each

    def __init__(self, count, at):
        self.count = count
        self.at = at


class SymLen(Unsupported):
    def __init__(self, v):
        Unsupported.__init__(self, 'iteration over symbolic length')


class LiveIter(object):
    """iterator over a list that may be mutated meanwhile"""

    def __init__(self, s):
        self.s = s
        self.i = 0

    def next(self):
        s = self.s
        if not s.is_units():
            raise Unsupported('list changed shape during iteration')
        vals = s.unit_vals()
        if self.i >= len(vals):
            return False, None
        self.i += 1
        return True, vals[self.i - 1]


class _Unk(object):
    pass


UNK = _Unk()


def cyc(x):
    vals = x.unit_vals()

    def fn(i):
        k = core.modc(promote(i), len(vals))
        if isinstance(k, int):
            return vals[k]
        r = vals[0]
        for j in range(1, len(vals)):
            r = core.ite(eq(k, j), vals[j], r)
        return r
    return fn


def arith_len(x, n):
    return arith('*', x.length(), n)


def disj_lazy(thunks):
    out = []
    for t in thunks:
        c = t()
        if c is True:
            return True
        out.append(c)
    return disj(out)


def bytes_or_str(s):
    return bytes(s.unit_vals()) if s.kind != 'str' else s.native()


def snapshot_env(env):
    e = Env(env.parent, env.module, env.names)
    e.vars = {k: (v.copy() if isinstance(v, Seq) else v)
              for k, v in env.vars.items()}
    if env.parent is not None and env.parent.vars is not env.module.ns:
        e.parent = snapshot_env(env.parent)
    e.globals_ = env.globals_
    return e


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
          ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|',
          ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>',
          ast.Pow: '**'}

OPM = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__',
       '%': '__mod__', '&': '__and__', '|': '__or__', '^': '__xor__'}
ROPM = {k: '__r' + v[2:] for k, v in OPM.items()}

import operator as _op   # noqa
PYOPS = {'+': _op.add, '-': _op.sub, '*': _op.mul, '/': _op.truediv,
         '//': _op.floordiv, '%': _op.mod, '**': _op.pow, '&': _op.and_,
         '|': _op.or_, '^': _op.xor, '<<': _op.lshift, '>>': _op.rshift}
