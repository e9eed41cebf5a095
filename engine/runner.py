"""Exploration of a harness, discharge of its obligations, counter-models."""
import json
import os
import re
import sys
import time

import z3

from . import core
from . import seq as S
from .core import (Budget, GuestExc, Path, PathEnd, Restart, SBool, SInt,
                   BInt, Unsupported, b, bounds, compare, conj, eq, fresh_int,
                   is_int, set_path, z)
from .seq import Seq
from .interp import (Builtin, ExtV, FuncV, Interp, ModuleV, NativeObj,
                     DictV, raise_exc, values_equal, CONTRACTS, NOTFOUND,
                     BoundV, Env, Frame)
if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)

HARNESSES = {}
CONTRACT_DEFS = {}


# ------------------------------------------------------------ discharging

BACKENDS = {}


def note_backend(n):
    BACKENDS[n] = BACKENDS.get(n, 0) + 1


def pure_bv_valid(g):
    """g with every integer-to-bit-vector conversion generalised to an
    arbitrary bit-vector is valid"""
    sub = []
    seen = {}
    todo = [g]
    bv = False
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen[e.get_id()] = e
        if z3.is_quantifier(e) or z3.is_var(e):
            return False
        if e.decl().kind() == z3.Z3_OP_INT2BV:
            sub.append((e, z3.BitVec('gen!%d' % len(sub), e.size())))
            continue
        if z3.is_bv(e):
            bv = True
        elif not z3.is_bool(e):
            return False
        todo.extend(e.children())
    if not (sub and bv):
        return False
    s = z3.SolverFor('QF_BV')
    s.set('timeout', 20000)
    s.add(z3.Not(z3.substitute(g, *sub)))
    return s.check() == z3.unsat


def linear_unsat(p, ng):
    """unsatisfiable with every product of variables generalised to an
    arbitrary integer within the product of the variables' bounds"""
    fs = [z3.simplify(f, som=True) for f in p.pcs + [ng]]
    sub = {}
    seen = set()
    todo = list(fs)
    extra = []
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e) or z3.is_var(e):
            return False
        if z3.is_mul(e):
            args = [a for a in e.children() if not z3.is_int_value(a)]
            if len(args) > 1:
                k = z3.IntVal(1)
                for a in e.children():
                    if z3.is_int_value(a):
                        k = a
                key = '*'.join(sorted(a.sexpr() for a in args))
                if key not in sub:
                    v = z3.Int('prod!%d' % len(sub))
                    lo, hi = 1, 1
                    for a in args:
                        l, h = p.varbounds.get(str(a), (None, None))
                        if l is None or l < 0:
                            lo = hi = None
                            break
                        lo *= l
                        hi = None if h is None or hi is None else hi * h
                    if lo is not None:
                        extra.append(v >= lo)
                    if hi is not None:
                        extra.append(v <= hi)
                    sub[key] = (v, [])
                sub[key][1].append((e, k * sub[key][0]))
                continue
        todo.extend(e.children())
    if not sub:
        return False
    pairs = [x for _, l in sub.values() for x in l]
    s = z3.Solver()
    s.set('timeout', p.TIMEOUT_MS)
    for f in fs:
        s.add(z3.substitute(f, *pairs))
    for f in extra:
        s.add(f)
    return s.check() == z3.unsat


def definitions(p, m):
    """instances of the definitions of the uninterpreted functions which a
    model disagrees with"""
    out = []

    def ev(x):
        if isinstance(x, int):
            return x
        return m.eval(core.z(x) if not z3.is_expr(x) else x,
                      model_completion=True).as_long()
    try:
        for (v,), n in p.apps.get('bit_length', []):
            if not isinstance(v, core.SInt) or not isinstance(n, core.SInt):
                continue
            mv, mn = ev(v), ev(n)
            if mv < 0 or mn > 600000 or mv.bit_length() == mn:
                continue
            for k in {mv.bit_length(), mv.bit_length() + 1, mn, mn + 1}:
                if k > 0:
                    out.append((v.e >= z3.IntVal(1 << (k - 1)))
                               == (n.e >= k))
        for (s,), r in p.apps.get('ival', []):
            if len(s.segs) != 1 or not isinstance(s.segs[0], S.A) \
                    or not isinstance(r, core.SInt):
                continue
            g = s.segs[0]
            n = ev(g.n)
            if n > 40:
                continue
            e = 0
            for i in range(n):
                e = core.add(core.arith('*', e, 256),
                             g.base.sel(core.add(g.start, i)))
            if ev(e) != ev(r):
                out.append(z3.Implies(core.z(g.n) == n, r.e == core.z(e)))
        for x, s, r in getattr(p, 'shifts', []):
            mx, ms = ev(x), ev(s)
            if 0 <= ms <= 600000 and ev(r) != mx >> ms:
                out.append(z3.Implies(s == ms, r == x / z3.IntVal(1 << ms)))
        for s, r in getattr(p, 'powers', []):
            ms = ev(s)
            if 0 <= ms <= 600000 and ev(r) != 1 << ms:
                out.append(z3.Implies(s == ms, r == z3.IntVal(1 << ms)))
    except (AttributeError, Unsupported, z3.Z3Exception):
        pass
    return out


def prove_goal(p, goal, hard=True):
    """('unsat', None) proved | ('sat', model) refuted | ('unknown', None)"""
    if isinstance(goal, SBool):
        goal = goal.e
    if isinstance(goal, bool):
        if goal:
            note_backend('simplifier')
            return 'unsat', None
        goal = z3.BoolVal(False)
    g = z3.simplify(goal)
    if z3.is_true(g):
        note_backend('simplifier')
        return 'unsat', None
    ng = z3.Not(g)
    t = time.time()
    try:
        if pure_bv_valid(g):
            note_backend('z3 (bit-vectors)')
            return 'unsat', None
        for turn in range(16):
            r = p.solver.check(ng)
            core.STATS.checks += 1
            if r == z3.unsat:
                note_backend('z3')
                return 'unsat', None
            if r == z3.sat:
                m = p.solver.model()
                more = definitions(p, m) if turn < 15 \
                    and time.time() - t < 20 else []
                if not more:
                    return 'sat', m
                for f in more:
                    p.add(f)
                continue
            break
        if not hard:
            return 'unknown', None
        if linear_unsat(p, ng):
            note_backend('z3 (products generalised)')
            return 'unsat', None
        for mkt in ((lambda: z3.Then('simplify', 'solve-eqs', 'smt')),
                    (lambda: z3.Tactic('qfbv')) if p.bv else None):
            if mkt is None:
                continue
            s = mkt().solver()
            s.set('timeout', p.TIMEOUT_MS)
            for f in p.pcs:
                s.add(f)
            s.add(ng)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                note_backend('z3 (tactic)')
                return 'unsat', None
            if r == z3.sat:
                return 'sat', s.model()
        r = core.cvc5_unsat(p.pcs + [ng], 15)
        if r == 'unsat':
            note_backend('cvc5')
            return 'unsat', None
        return 'unknown', None
    finally:
        core.STATS.solver_s += time.time() - t


def decls(e, seen):
    """names of the uninterpreted symbols in a term"""
    out = set()
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
        elif z3.is_quantifier(x):
            todo.append(x.body())
    return out


# symbols whose meaning the native run has, too: inputs, lengths, iteration
# counts and functions of octets which the code computes itself
NATIVE = ('in_', 'sel_in_', 'len_', 'sel_len_', 'ival', 'POW2', 'crc24',
          'octetsum', 'gcd', 'hex', 'upper', 'lower', 'replace', 'encode_',
          'decode_', 'b64', 'bit_length', 'ix', 'ci', 'SHR', 'BITLEN', 'MOD', 'DIV')


def exact(p, goal):
    """does a counter-model say everything a native run depends on?"""
    seen = set()
    names = decls(goal, seen)
    for f in p.pcs:
        names |= decls(f, seen)
    for x in names:
        if not x.startswith(NATIVE) and not re.match('k[0-9]+', x):
            return False
    return True


def imprecise(p, goal):
    """Does the goal depend on a loop variable about which nothing is known
    but the guard?  Then a counter-model says that the invariants found are
    too weak, not that the code is wrong."""
    if not getattr(p, 'havocked', 0):
        return False
    def bad(names):
        return any(x.startswith(('h_', 'len_h_')) for x in names)
    known = decls(goal, set()) if goal is not None else set()
    if not known:
        return True
    if bad(known):
        return True
    rest = [decls(f, set()) for f in p.pcs]
    while True:
        more = [d for d in rest if d & known]
        if not more:
            return False
        rest = [d for d in rest if not d & known]
        for d in more:
            known |= d
        if bad(known):
            return True


# ----------------------------------------------------------- harness values

class Refuted(Exception):
    pass


class VApi(NativeObj):
    """What a harness sees as ``v`` (symbolic side)."""
    typename = 'V'
    attrs = {'symbolic': True}

    def __init__(self, run):
        self.run = run

    def _add(self, name, kind, val):
        core.cur().inputs.append((name, kind, val))
        return val

    def m_int(self, I, name, lo=None, hi=None):
        return self._add(name, 'int', fresh_int('in_' + name, lo, hi))

    def m_scratch(self, I):
        return '/scratch'

    def m_nat(self, I, name):
        return self._add(name, 'int', fresh_int('in_' + name, 0))

    def m_bool(self, I, name):
        k = core.cur().choose(2)
        core.cur().sizes[name] = 2
        self._add(name, 'choice', k)
        return bool(k)

    def m_bytes(self, I, name, n=None, lo=0, hi=None, kind='bytes'):
        p = core.cur()
        if n is None:
            n = fresh_int('len_' + name, lo, hi)
        if type(n) is int and (p.bv or n <= 64):
            vals = [fresh_int('in_%s_%d' % (name, i), 0, 255)
                    for i in range(n)]
            s = Seq.units(kind, vals)
        else:
            base = S.Base(p.fresh_name('in_' + name), n)
            s = Seq(kind, [S.A(base, 0, n)])
        self._add(name, kind, s.copy())
        return s

    def m_bytearray(self, I, name, n=None, lo=0, hi=None):
        return self.m_bytes(I, name, n, lo, hi, 'bytearray')

    def m_ints(self, I, name, n, lo, hi):
        """a list of n integers, each lo..hi"""
        p = core.cur()
        if type(n) is int:
            vals = [fresh_int('in_%s_%d' % (name, i), lo, hi)
                    for i in range(n)]
            s = Seq.units('list', vals)
            self._add(name, 'ints', s.copy())
            return s
        raise Unsupported('symbolic number of integers')

    def m_text(self, I, name, n=None, lo=0, hi=None, maxchar=127,
               without=''):
        p = core.cur()
        if n is None:
            n = fresh_int('len_' + name, lo, hi)
        if type(n) is int and n <= 64:
            vals = [fresh_int('in_%s_%d' % (name, i), 0, maxchar)
                    for i in range(n)]
            s = Seq.units('str', vals)
        else:
            base = S.Base(p.fresh_name('in_' + name), n, 'char')
            base.maxchar = maxchar
            base.without = tuple(map(ord, without))
            s = Seq('str', [S.A(base, 0, n)])
        self._add(name, 'text', s.copy())
        return S.simplify_str(s)

    def m_hexid(self, I, name, n):
        """upper case hexadecimal text of n octets"""
        bs = self.m_bytes(I, name, n)
        from .models import hex_of
        core.cur().inputs[-1] = (name, 'hexid', bs)
        return hex_of(bs, True)

    def m_choice(self, I, name, options):
        if isinstance(options, Seq):
            opts = options.unit_vals()
        elif isinstance(options, (tuple, list)):
            opts = list(options)
        elif isinstance(options, int):
            opts = list(range(options))
        else:
            opts = I.to_list(options)
        k = core.cur().choose(len(opts)) if len(opts) > 1 else 0
        core.cur().sizes[name] = len(opts)
        self._add(name, 'choice', k)
        return opts[k]

    def m_assume(self, I, cond):
        c = truth_term(I, cond)
        core.cur().assume(c if not isinstance(c, bool) else c)

    def m_check(self, I, name, cond):
        self.run.obligation(name, truth_term(I, cond))

    def m_check_eq(self, I, name, x, y):
        c = values_equal(x, y, True)
        self.run.obligation(name, c, (x, y))

    def m_reach(self, I, name):
        """this point must be reachable (vacuity guard)"""
        self.run.reached.add(name)

    def m_outcome(self, I, f, *a, **k):
        """('ok', value) or ('exc', class name)"""
        try:
            return ('ok', I.call(f, list(a), dict(k)))
        except GuestExc as e:
            if e.val.cls.name in INTERNAL_EXC:
                pass
            return ('exc', e.val.cls.name)

    def m_note(self, I, *a):
        return None


INTERNAL_EXC = ()


def truth_term(I, cond):
    if isinstance(cond, (bool, SBool)):
        return cond
    if isinstance(cond, (SInt, BInt)):
        return core.neg(eq(cond, 0))
    return I.truth(cond)


# ---------------------------------------------------------------- contracts

class Contract(object):
    """Functional contract of a real function: for arguments of the declared
    kinds satisfying ``requires`` the result equals ``ensures(args)``.  The
    body is checked against it by the harness 'contract:<qualname>'; callers
    use it instead of the body."""

    def __init__(self, qualname, kinds, requires, ensures, opts):
        self.qualname = qualname
        self.kinds = kinds
        self.requires = requires
        self.ensures = ensures
        self.opts = opts

    def try_apply(self, I, f, args, kwargs):
        if self.qualname in I.nocontract:
            return NOTFOUND
        try:
            vals = I.bind_args(f, args, kwargs)
        except GuestExc:
            return NOTFOUND
        names = [a.arg for a in f.node.args.args]
        av = [vals[n] for n in names]
        if len(av) != len(self.kinds):
            return NOTFOUND
        for kd, x in zip(self.kinds, av):
            if not kind_ok(kd, x):
                return NOTFOUND
        p = core.cur()
        if self.requires is not None:
            c = I.call(self.requires, list(av), {})
            c = truth_term_noforking(I, c)
            if c is None:
                return NOTFOUND
            if c is not True and (c is False or not p.prove(c)):
                return NOTFOUND
        r = I.call(self.ensures, list(av), {})
        if 'low_bits' in self.opts:
            # only these are specified, and a range
            n = 1 << self.opts['low_bits']
            r = core.add(core.arith('&', r, n - 1), core.arith(
                '*', core.fresh_int('high', -1, 1), n))
        return r


def truth_term_noforking(I, c):
    if isinstance(c, (bool, SBool)):
        return c
    if is_int(c):
        return core.neg(eq(c, 0))
    return None


def kind_ok(kd, x):
    if kd[0] == 'opt':
        return x is None or kind_ok(kd[1], x)
    if kd[0] == 'int':
        if not is_int(core.promote(x)) or isinstance(x, bool):
            return False
        lo, hi = kd[1], kd[2]
        p = core.cur()
        if lo is not None:
            c = compare('>=', x, lo)
            if c is not True and (c is False or not p.prove(c)):
                return False
        if hi is not None:
            c = compare('<=', x, hi)
            if c is not True and (c is False or not p.prove(c)):
                return False
        return True
    if kd[0] == 'bytes':
        return isinstance(x, Seq) and x.kind in ('bytes', 'bytearray')
    if kd[0] == 'none':
        return x is None
    if kd[0] == 'const':
        return type(x) is type(kd[1]) and x == kd[1]
    return False


def guest_kind(x):
    """Kinds are written in contract files as tuples."""
    if isinstance(x, tuple) and x and x[0] == 'opt':
        return ('opt', guest_kind(x[1]))
    return x


def fresh_of_kind(v, I, name, kd):
    if kd[0] == 'opt':
        if v.m_bool(I, name + '_given'):
            return fresh_of_kind(v, I, name, kd[1])
        return None
    if kd[0] == 'int':
        return v.m_int(I, name, kd[1], kd[2])
    if kd[0] == 'bytes':
        return v.m_bytes(I, name) if len(kd) == 1 else v.m_bytes(
            I, name, None, kd[1], kd[2])
    if kd[0] == 'none':
        return None
    if kd[0] == 'const':
        return kd[1]
    raise Unsupported('kind %r' % (kd,))


# ---------------------------------------------------------------- vc module

def vc_module(I):
    m = ModuleV('vc')
    m.ext = True
    ns = m.ns

    def harness(I, *a, **k):
        def deco(i2, args, kw):
            f = args[0]
            HARNESSES[(I2mod(f), f.name)] = (f, dict(k))
            return f
        return Builtin('harness', deco)

    def bounded(I, *a, **k):
        def deco(i2, args, kw):
            f = args[0]
            return f
        return Builtin('bounded', deco)

    def contract(I, qualname, kinds, ensures, requires=None, **opts):
        kinds = [guest_kind(x) for x in (
            I.to_list(kinds) if not isinstance(kinds, tuple) else kinds)]
        CONTRACTS[qualname] = CONTRACT_DEFS[qualname] = Contract(
            qualname, kinds, requires, ensures, opts)
        return None

    ns['harness'] = Builtin('harness', lambda i, a, k: harness(i, *a, **k))
    ns['bounded'] = Builtin('bounded', lambda i, a, k: bounded(i, *a, **k))
    ns['contract'] = Builtin('contract', lambda i, a, k: contract(i, *a, **k))
    ns['nat'] = ('int', 0, None)
    ns['anyint'] = ('int', None, None)
    ns['octets'] = ('bytes',)
    ns['none'] = ('none',)
    ns['opt'] = Builtin('opt', lambda i, a, k: ('opt', a[0]))
    ns['rng'] = Builtin('rng', lambda i, a, k: ('int', a[0], a[1]))
    ns['SYMBOLIC'] = True
    from . import specs
    specs.install(I, ns)
    return m


def I2mod(f):
    return f.module.name


# ------------------------------------------------------------------- runner

class Run(object):
    def __init__(self, interp, func, opts, name):
        self.I = interp
        self.func = func
        self.opts = opts
        self.name = name
        self.obls = {}          # name -> dict(proved, failed, unknown)
        self.cex = []           # counterexamples
        self.unsupported = {}
        self.paths = 0
        self.completed = 0
        self.reached = set()
        self.lemmas = set()
        self.notes = set()

    def obligation(self, name, c, info=None):
        p = core.cur()
        o = self.obls.setdefault(name, {'proved': 0, 'refuted': 0,
                                        'unknown': 0})
        p.checks_reached += 1
        st, model = prove_goal(p, c)
        if st == 'unsat':
            o['proved'] += 1
            if isinstance(c, SBool):
                p.add(c)
            return
        if st == 'sat':
            if p.pc_status() == z3.unsat:
                raise PathEnd('infeasible')
            weak = imprecise(p, c.e if isinstance(c, SBool) else
                             z3.BoolVal(False) if c is False else c)
            o['unknown' if weak else 'refuted'] += 1
            self.cex.append({'obligation': name, 'weak': weak,
                             'exact': exact(p, c.e if isinstance(c, SBool)
                                            else z3.BoolVal(True)),
                             'inputs': concretize_inputs(p, model),
                             'path': str(p.trace)[:300],
                             'model': str(model)[:1500],
                             'values': short(info)})
        else:
            o['unknown'] += 1
        if c is False:
            raise PathEnd('check failed')
        p.assume(c)

    def explore(self, deadline, max_paths):
        work = [[]]
        restarts = 0
        first = True
        while work:
            if time.time() > deadline:
                self.unsupported['time budget'] = \
                    self.unsupported.get('time budget', 0) + len(work)
                return
            if self.paths >= max_paths:
                self.unsupported['path budget'] = \
                    self.unsupported.get('path budget', 0) + len(work)
                return
            if len(self.cex) >= 12:
                self.notes.add('stopped after 12 counterexamples')
                return
            prefix = work.pop()
            p = Path(prefix, bv=bool(self.opts.get('bv')))
            p.sizes = {}
            set_path(p)
            self.paths += 1
            self.I.reset()
            try:
                self.I.call(self.func, self.args(), {})
                self.completed += 1
                if p.checks_reached == 0:
                    self.notes.add('a path without obligations')
            except PathEnd:
                pass
            except Restart as e:
                restarts += 1
                if restarts > 60:
                    self.unsupported['loop invariants do not stabilise'] = 1
                    return
                # start again with the weaker set of invariants
                self.obls = {}
                self.cex = []
                self.unsupported = {}
                self.completed = 0
                self.reached = set()
                self.lemmas = set()
                work = [[]]
                continue
            except Unsupported as e:
                k = str(e)[:200]
                self.unsupported[k] = self.unsupported.get(k, 0) + 1
            except S.PathEndIndex:
                self.unsupported['index'] = 1
            except Budget as e:
                self.unsupported[str(e)] = 1
            except RecursionError:
                self.unsupported['recursion'] = 1
            except GuestExc as e:
                self.exc(p, e)
            finally:
                for g in p.gens:
                    try:
                        g.close()
                    except Exception:
                        pass
            self.lemmas |= p.lemmas_used
            work.extend(p.alts)

    def exc(self, p, e):
        name = 'no unexpected exception'
        o = self.obls.setdefault(name, {'proved': 0, 'refuted': 0,
                                        'unknown': 0})
        r = p.solver.check()
        if r == z3.unsat:
            return
        if r == z3.sat:
            weak = imprecise(p, None)
            o['unknown' if weak else 'refuted'] += 1
            m = p.solver.model()
            self.cex.append({'obligation': name, 'weak': weak,
                             'exact': exact(p, z3.BoolVal(True)),
                             'inputs': concretize_inputs(p, m),
                             'path': str(p.trace)[:300],
                             'values': str(e)[:500],
                             'model': str(m)[:1500]})
        else:
            o['unknown'] += 1

    def args(self):
        return [VApi(self)]


def short(info):
    if info is None:
        return None
    return repr(info)[:1500]


def concretize_inputs(p, model):
    out = {}

    def iv(v):
        if isinstance(v, (bool, int)):
            return int(v)
        e = model.eval(v.e, model_completion=True)
        if isinstance(v, BInt):
            n = e.as_long()
            if v.lo < 0 and n >= 1 << (v.e.size() - 1):
                n -= 1 << v.e.size()
            return n
        return e.as_long()
    for name, kind, val in p.inputs:
        try:
            if kind == 'int':
                out[name] = iv(val)
            elif kind == 'choice':
                out[name] = val
                out.setdefault('_sizes', {})[name] = p.sizes.get(name)
            elif kind in ('bytes', 'bytearray', 'text', 'hexid', 'ints'):
                vals = []
                for g in val.segs:
                    n = iv(g.n)
                    if n > 300000:
                        n = 300000
                        out['_cut'] = True
                    for i in range(n):
                        if isinstance(g, S.U):
                            vals.append(iv(g.vals[i]))
                        elif isinstance(g, S.A):
                            if i >= 4096:
                                out['_cut'] = True
                            else:
                                e = g.base.fn(z(core.add(g.start, i)))
                                x = model.eval(e, model_completion=True
                                               ).as_long()
                                y = x & (0xff if kind != 'text' else 0x7f)
                                if x != y:
                                    out['_cut'] = True
                                x = y
                            vals.append(x)
                if kind in ('ints', 'text'):
                    out[name] = vals
                else:
                    out[name] = bytes(vals).hex()
        except Exception as e:      # leave it to the random search
            out.setdefault('_errors', []).append('%s: %s' % (name, e))
    return out


class ContractRun(Run):
    """Body of a real function against its contract."""

    def __init__(self, interp, f, contract, name):
        Run.__init__(self, interp, Builtin(name, self.body),
                     contract.opts, name)
        self.f = f
        self.contract = contract

    def body(self, I, a, k):
        v = a[0]
        c = self.contract
        f = self.f
        names = [x.arg for x in f.node.args.args]
        if len(names) != len(c.kinds):
            raise Unsupported('signature of %s changed' % c.qualname)
        args = [fresh_of_kind(v, I, 'arg%d' % i, kd)
                for i, kd in enumerate(c.kinds)]
        if c.opts.get('split_zero'):
            args = [x if not isinstance(x, SInt) else 0
                    if core.cur().branch(eq(x, 0)) else SInt(x.e, 1, x.hi)
                    for x in args]
        if c.requires is not None:
            v.m_assume(I, I.call(c.requires, list(args), {}))
        want = outcome(I, c.ensures, [S.freeze(x) for x in args])
        I.nocontract.add(c.qualname)
        try:
            got = outcome(I, f, [S.freeze(x) for x in args])
        finally:
            I.nocontract.discard(c.qualname)
        self.obligation('same outcome kind', want[0] == got[0]
                        and (want[0] == 'ok' or want[1] == got[1]),
                        (want, got))
        if want[0] == 'ok' and got[0] == 'ok' and 'low_bits' in c.opts:
            n = 1 << c.opts['low_bits']
            low = core.arith('&', got[1], n - 1)
            core.cur().branch(eq(low, 0))
            self.obligation('result', eq(low, want[1]), (got, want))
            self.obligation('range', conj([
                core.compare('<=', -n, got[1]),
                core.compare('<', got[1], 2 * n)]), (got, want))
        elif want[0] == 'ok' and got[0] == 'ok':
            self.obligation('result', conj([
                values_equal(got[1], want[1], True),
                same_type(got[1], want[1])]), (got, want))


def same_type(x, y):
    from .interp import type_of
    tx, ty = type_of(x), type_of(y)
    return tx is ty or getattr(tx, 'name', 1) == getattr(ty, 'name', 2)


def outcome(I, f, args):
    try:
        return ('ok', I.call(f, args, {}))
    except GuestExc as e:
        return ('exc', e.val.cls.name)


def make_interp(root='/repo'):
    import threading
    I = Interp(root)
    I.extra_roots.append(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    I.models = dict(I.models)
    I.models['vc'] = vc_module
    from . import loopspecs     # noqa
    set_path(Path([]))
    return I


def run_one(module, name, budget_s=120, max_paths=20000, root='/repo',
            nocontract=()):
    t0 = time.time()
    I = make_interp(root)
    I.nocontract |= set(nocontract)
    out = {'module': module, 'harness': name}
    try:
        I.load('contracts.common')
        I.load(module)
    except (GuestExc, Unsupported) as e:
        out['unsupported'] = {'load: %s' % e: 1}
        out['status'] = 'undecided'
        return out
    I.exec_funcs.clear()
    if name.startswith('contract:'):
        q = name.split(':', 1)[1]
        c = CONTRACT_DEFS[q]
        try:
            f = resolve(I, q)
        except (GuestExc, Unsupported) as e:
            out['unsupported'] = {'%s: %s' % (q, e): 1}
            out['status'] = 'undecided'
            return out
        run = ContractRun(I, f, c, name)
    else:
        f, opts = HARNESSES[(module, name)]
        run = Run(I, f, opts, name)
    budget_s = run.opts.get('budget', budget_s)
    from . import loopspecs
    for q in run.opts.get('cut', ()):
        loopspecs.LOOPSPECS[q] = loopspecs.monotone
    run.explore(t0 + budget_s, run.opts.get('paths', max_paths))
    out.update({
        'obligations': run.obls, 'paths': run.paths,
        'completed': run.completed, 'cex': run.cex,
        'unsupported': run.unsupported, 'reached': sorted(run.reached),
        'functions': sorted(I.exec_funcs),
        'contracts': sorted(I.used_contracts),
        'invariants': sorted(run.lemmas), 'notes': sorted(run.notes),
        'trusted': sorted(getattr(I, 'trusted_used', ())),
        'solver_s': round(core.STATS.solver_s, 3),
        'queries': core.STATS.checks, 'backends': BACKENDS,
        'wall_s': round(time.time() - t0, 2)})
    refuted = sum(o['refuted'] for o in run.obls.values())
    unknown = sum(o['unknown'] for o in run.obls.values())
    proved = sum(o['proved'] for o in run.obls.values())
    if refuted:
        st = 'refuted'
    elif run.unsupported or unknown:
        st = 'undecided'
    elif not proved:
        st = 'vacuous'
    else:
        st = 'proved'
    out['status'] = st
    return out


def resolve(I, q):
    parts = q.split('.')
    for i in range(len(parts) - 1, 0, -1):
        mod = '.'.join(parts[:i])
        if I.find(mod):
            o = I.load(mod)
            for x in parts[i:]:
                o = I.getattr(o, x)
            return o
    raise Unsupported('no module for %s' % q)


def main():
    import argparse
    import resource
    import threading
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('harness')
    ap.add_argument('--budget', type=float, default=120)
    ap.add_argument('--out')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--nocontract', default='')
    a = ap.parse_args()
    res = {}

    def work():
        try:
            res.update(run_one(a.module, a.harness, a.budget, root=a.repo,
                               nocontract=a.nocontract.split(',')))
        except BaseException as e:
            import traceback
            res.update({'module': a.module, 'harness': a.harness,
                        'status': 'undecided',
                        'unsupported': {'engine: %s: %s' % (
                            type(e).__name__, e): 1},
                        'trace': traceback.format_exc()[-3000:]})
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=work)
    t.start()
    threading.stack_size(64 * 1024 * 1024)
    t.join()
    txt = json.dumps(res, indent=1, default=str)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(txt)
    else:
        print(txt)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
