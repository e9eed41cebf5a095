"""Loops of symbolic length, cut by inductive invariants.

A loop specification (LOOPSPECS[qualname of an enclosing function]) yields
candidates.  Candidates are over roles, not names: a definitional candidate
('seq' | 'int', label, fn) says "this variable equals fn(L, entry value, k)"
and is tried on every modified variable of that type; an ('inv', label, fn)
candidate is a formula over the modified integer variables.  Candidates that
are not established on entry or not preserved by an arbitrary iteration are
dropped (Houdini), so what remains is inductive whatever the loop looks like.
"""
import ast

import z3

from . import core
from . import seq as S
from .core import (BInt, PathEnd, Restart, SBool, SInt, Unsupported, add,
                   arith, b, bounds, compare, conj, cur, eq, fresh_int,
                   is_int, neg, promote, sub, z)
from .seq import Seq
from .interp import (BoundV, BreakEx, ContinueEx, DictV, FuncV, GenV, ListIter,
                     LiveIter, LOOPSPECS, NativeObj, Obj, SetV, SuperV,
                     RangeV,
                     SymIter, values_equal, _LoopVars, type_of, TYPES)


class SkipCandidate(Exception):
    pass


class L(object):
    """What a loop specification may look at."""

    spec_first = False          # before v0 + c * k, even in the guard
    states = ()                 # (label, object, attribute) changed by calls

    def __init__(self, interp, func, args, fr, n):
        self.interp = interp
        self.func = func
        self.args = args            # entry values of the function arguments
        self.fr = fr
        self.n = n                  # iteration count (for loops) or None
        self.k = None
        self.kprev = None

    def arg(self, i):
        names = [a.arg for a in self.func.node.args.args]
        return self.args.vars[names[i]]


def iter_at(interp, it):
    if isinstance(it, RangeV):
        return it.count(), it.at
    if isinstance(it, SymIter):
        return it.count, it.at
    if isinstance(it, Seq):
        s = it.copy()
        return s.length(), lambda k: interp.wrap_elem(s, s.get(k))
    raise Unsupported('symbolic iteration over %r' % (it,))


STEPS = (1, -1, 0, 2, -2, 3, 4, 6, 8, -8, 16)


def default_candidates():
    out = []
    for c in STEPS:
        out.append(('int', 'v0%+dk' % c,
                    lambda L, v0, k, c=c: add(v0, arith('*', k, c))))
    out.append(('seq', 'unchanged', lambda L, v0, k: v0))
    return out


def loop_id(interp, n, fr):
    return (fr.env.module.name, n.lineno, n.col_offset,
            tuple(f.qualname for f, _ in interp.stack if f is not None))


def symbolic_for(interp, n, it, fr):
    f, args = interp.spec_owner()
    if f is None:
        auto_map = None
        f, args = (interp.stack[-1] if interp.stack else (None, None))
    count, at = iter_at(interp, it)
    if isinstance(count, int) and count == 0:
        interp.exec_block(n.orelse, fr)
        return
    run_loop(interp, n, fr, f, args, count, at)


def symbolic_while(interp, n, fr, f, args):
    """Handle the loop with invariants; False to fall back to unrolling."""
    # only loops whose condition is undecided on entry need a cut
    p = cur()
    env_copy = snapshot_vars(fr)
    t = interp.eval(n.test, fr)
    if not isinstance(t, (SBool, SInt, BInt, Seq)):
        return False
    if isinstance(t, Seq):
        c = compare('>', t.length(), 0)
    elif isinstance(t, SBool):
        c = t
    else:
        c = neg(eq(t, 0))
    if isinstance(c, bool):
        return False
    can_t = p.possible(c.e)
    can_f = p.possible(z3.Not(c.e))
    if not (can_t and can_f) and not getattr(f, 'force_cut', False):
        # decided now, maybe undecided later: cut anyway when the variant is
        # symbolic
        pass
    run_loop(interp, n, fr, f, args, None, None)
    return True


def snapshot_vars(fr):
    return dict(fr.env.vars)


def state_vars(interp, n, fr, lid):
    lv = _LoopVars()
    for s in n.body:
        lv.visit(s)
    if isinstance(n, ast.While):
        lv.visit(n.test)
    targets = set()
    if isinstance(n, ast.For):
        for x in ast.walk(n.target):
            if isinstance(x, ast.Name):
                targets.add(x.id)
    names = [v for v in sorted(lv.rebind | lv.mutate)
             if v in fr.env.vars and v not in targets]
    attrs = []
    for base, attr in sorted(lv.attrs):
        try:
            o = interp.lookup(base, fr.env)
        except core.GuestExc:
            continue
        if isinstance(o, Obj) and attr in o.attrs:
            attrs.append((base, attr))
    # closure / enclosing mutated containers
    for v in sorted(lv.mutate):
        if v not in fr.env.vars:
            try:
                o = interp.lookup(v, fr.env)
            except core.GuestExc:
                continue
            if isinstance(o, Seq):
                names.append(v)
    locals_only = [v for v in sorted(lv.rebind) if v not in fr.env.vars
                   and v not in targets]
    return names, attrs, locals_only


class Ref(object):
    owner = None

    def __init__(self, name, get, set_):
        self.name, self.get, self.set = name, get, set_


def make_refs(interp, names, attrs, fr):
    refs = []
    for v in names:
        if type(interp.lookup(v, fr.env)).__name__ == 'HashObj':
            continue
        refs.append(Ref(v, lambda v=v: interp.lookup(v, fr.env),
                        lambda x, v=v: interp.store(v, x, fr.env)))
    for o, a in attrs:
        obj = interp.lookup(o, fr.env)
        refs.append(Ref('%s.%s' % (o, a), lambda obj=obj, a=a: obj.attrs[a],
                        lambda x, obj=obj, a=a: obj.attrs.__setitem__(a, x)))
    for v in sorted(set(names)):
        o = interp.lookup(v, fr.env)
        if type(o).__name__ == 'HashObj':
            refs.append(Ref('%s.data' % v, lambda o=o: o.data,
                            lambda x, o=o: setattr(o, 'data', x)))
            refs[-1].owner = (v, o)
    return refs


def freeze(v):
    return v.copy() if isinstance(v, Seq) else v


def role_of(v):
    if isinstance(v, (bool, SBool)):
        return 'bool'
    if is_int(v):
        return 'int'
    if isinstance(v, Seq):
        return 'seq'
    if isinstance(v, str):
        return 'str'
    if v is None:
        return 'none'
    return 'other'


def simple_expr(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id == 'len'):
                return False
        elif not isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.Add,
                                ast.Sub, ast.Mult, ast.Attribute, ast.Load,
                                ast.UnaryOp, ast.USub, ast.Div,
                                ast.FloorDiv)):
            return False
    return True


def guard_invariants(interp, test, fr):
    """x < y  suggests the invariant  x <= y, and so on"""
    out = []
    for t in (test.values if isinstance(test, ast.BoolOp) else [test]):
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1
                and simple_expr(t.left) and simple_expr(t.comparators[0])):
            continue
        x, y, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            x, y = y, x

        def fn(L, vs, k, x=x, y=y, d=0):
            try:
                a, c = interp.eval(x, fr), interp.eval(y, fr)
            except core.GuestExc:
                return False
            a, c = promote(a), promote(c)
            if not all(is_int(q) or isinstance(q, (float, core.SReal))
                       for q in (a, c)):
                return False
            r = compare('<=', a, add(c, d) if d else c)
            return r if isinstance(r, bool) else r.e
        out.append(('inv', 'guard:' + ast.dump(t)[:60] + ':' + str(
            t.col_offset), fn))
        if isinstance(op, ast.NotEq):
            out.append(('inv', 'guard2:' + str(t.col_offset),
                        lambda L, vs, k, x=y, y=x, fn=fn: fn(L, vs, k, x,
                                                             y)))
    return out


def trip_count(interp, test, fr, entry, dropped):
    """how often a while loop runs, if its guard compares a variable which
    changes by one each time to something; only a hint for candidates"""
    def val(x):
        if not simple_expr(x):
            return None
        try:
            v = promote(interp.eval(x, fr))
        except (core.GuestExc, Unsupported):
            return None
        return v if is_int(v) else None

    def moves(x):
        """+1, -1, or 0 for what looks unchanged"""
        if isinstance(x, ast.Name) and x.id in entry:
            for c in STEPS:
                if (x.id, 'v0%+dk' % c) not in dropped:
                    used.append('%s%+d' % (x.id, c))
                    return c
            return None
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and y.id in entry \
                    and role_of(entry[y.id]) == 'int':
                return None
        return 0
    out = []
    used = []
    for t in (test.values if isinstance(test, ast.BoolOp) else [test]):
        x, y, op = t, None, None
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            x, y, op = t.left, t.comparators[0], t.ops[0]
        elif isinstance(t, ast.Name):
            x, y, op = t, ast.Constant(0), ast.NotEq()
        if y is None:
            continue
        a, c = val(x), val(y)
        if a is None or c is None:
            continue
        if isinstance(op, (ast.Gt, ast.GtE)):
            x, y, a, c = y, x, c, a
            op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
        mx, my = moves(x), moves(y)
        if mx is None or my is None:
            continue
        d = sub(c, a)
        rate = mx - my
        if isinstance(op, ast.LtE):
            d = add(d, 1)
        elif isinstance(op, ast.NotEq):
            if rate < 0:
                d, rate = sub(0, d), -rate
        elif not isinstance(op, ast.Lt):
            continue
        if rate < 1:
            continue
        if rate > 1:
            d = core.divc(add(d, rate - 1), rate)
        out.append(d)
    if not out:
        return None, None
    label = 'k <= n if ' + ' '.join(used)
    if label in dropped:
        return None, None
    d = out[0]
    if isinstance(d, int):
        return max(d, 0), label
    if cur().prove(b(compare('>=', d, 0))):
        return d, label
    return core.ite(compare('>=', d, 0), d, 0), label


def heap_snapshot(interp, fr):
    """identity and contents of every mutable object reachable from the
    frames of the interpreter"""
    snap = {}
    todo = []
    env = fr.env
    seen_env = set()

    def push_env(e):
        while e is not None and id(e) not in seen_env:
            seen_env.add(id(e))
            if getattr(e, 'module', None) is not None \
                    and e.vars is e.module.ns:
                break
            todo.extend(e.vars.values())
            e = e.parent
    push_env(env)
    for e in interp.envs:
        push_env(e)
    while todo:
        v = todo.pop()
        if isinstance(v, (tuple, list)):
            todo.extend(v)
            continue
        if id(v) in snap:
            continue
        if isinstance(v, (GenV, ListIter, LiveIter)):
            snap[id(v)] = (v, v.i)
            if isinstance(v, GenV):
                push_env(v.env)
            continue
        if isinstance(v, BoundV):
            todo.extend((v.func, v.self))
            continue
        if isinstance(v, SuperV):
            todo.append(v.obj)
            continue
        if isinstance(v, FuncV):
            push_env(v.env)
            continue
        if isinstance(v, SetV):
            v = v.d
        if isinstance(v, Obj):
            snap[id(v)] = (v, dict(v.attrs))
            todo.extend(v.attrs.values())
        elif isinstance(v, Seq):
            snap[id(v)] = (v, list(v.segs))
            if v.kind == 'list':
                for g in v.segs:
                    if isinstance(g, S.U):
                        todo.extend(g.vals)
        elif isinstance(v, NativeObj):
            at = dict(getattr(v, '__dict__', {}))
            snap[id(v)] = (v, at)
            todo.extend(at.values())
        elif isinstance(v, DictV):
            snap[id(v)] = (v, list(zip(v.keys_, v.vals)))
            for kv in zip(v.keys_, v.vals):
                todo.extend(kv)
    return snap


def heap_changed(snap, fr):
    """objects whose contents are no longer what the snapshot says"""
    out = []
    for v, old in snap.values():
        if isinstance(v, (GenV, ListIter, LiveIter)):
            if v.i != old:
                out.append((v, 'i'))
        elif isinstance(v, NativeObj):
            for a in set(old) | set(v.__dict__):
                if a not in old or old[a] is not v.__dict__.get(a):
                    x, y = old.get(a), v.__dict__.get(a)
                    if not (isinstance(x, Seq) and isinstance(y, Seq)
                            and same_segs(x.segs, y.segs)):
                        out.append((v, a))
        elif isinstance(v, Obj):
            for a in set(old) | set(v.attrs):
                if a not in old or a not in v.attrs \
                        or old[a] is not v.attrs[a]:
                    out.append((v, a))
        elif isinstance(v, Seq):
            if len(v.segs) != len(old) or any(
                    x is not y for x, y in zip(v.segs, old)):
                if not same_segs(v.segs, old):
                    out.append((v, None))
        else:
            new = list(zip(v.keys_, v.vals))
            if len(new) != len(old) or any(
                    x[0] is not y[0] and x[0] != y[0] or x[1] is not y[1]
                    for x, y in zip(new, old)):
                out.append((v, None))
    return out


def referrers(v, snap, interp, fr):
    """how many variables and attributes held an object"""
    out = 0
    for o, old in snap.values():
        if isinstance(old, dict):
            out += sum(x is v for x in old.values())
        elif isinstance(o, Seq):
            out += sum(x is v for g in old if isinstance(g, S.U)
                       for x in g.vals)
        elif isinstance(old, list):
            out += sum(x is v for kv in old for x in kv)
    seen = set()
    for e in list(interp.envs) + [fr.env]:
        while e is not None and id(e) not in seen:
            seen.add(id(e))
            out += sum(x is v or isinstance(x, (tuple, list)) and any(
                y is v for y in x) for x in e.vars.values())
            e = e.parent
    return out


def same_segs(a, b_):
    try:
        return S.seg_key(a) == S.seg_key(b_)
    except Exception:
        return False


def run_loop(interp, n, fr, f, args, count, at):
    p = cur()
    lid = loop_id(interp, n, fr)
    spec = LOOPSPECS.get(f.qualname) if f is not None else None
    ctx = L(interp, f, args, fr, count)
    dropped = interp.loop_dropped.setdefault(lid, set())
    names, attrs, locals_only = state_vars(interp, n, fr, lid)
    refs = make_refs(interp, names, attrs, fr)
    # what the guard looks at goes first, and most likely counts
    guards = set()
    if isinstance(n, ast.While):
        guards = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
        refs.sort(key=lambda r: r.name not in guards)
    entry = {r.name: freeze(r.get()) for r in refs}
    ctx.entry = entry
    sp = list(spec(ctx)) if spec is not None else []
    for label, obj, attr in ctx.states:
        refs.append(Ref(label, lambda obj=obj, attr=attr: obj.attrs[attr],
                        lambda x, obj=obj, attr=attr:
                        obj.attrs.__setitem__(attr, x)))
        entry[label] = freeze(refs[-1].get())
    early = []
    if count is None:
        ctx.n, label = trip_count(interp, n.test, fr, entry, dropped)
        if label is not None:
            early.append(label)
    cands = default_candidates()

    def value(name, c, k):
        """of a variable after k iterations, by a candidate"""
        try:
            return c[2](ctx, freeze(entry[name]), k)
        except core.GuestExc:
            dropped.add((name, c[1]))
            raise Restart('%s:%s' % (name, c[1]))
    extra = []
    if spec is not None:
        extra = [c for c in sp if c[0] == 'inv']
        cands = [c for c in sp if c[0] not in ('inv', 'count')] + cands
        for c in sp:
            if c[0] == 'count' and count is None and c[1] not in dropped \
                    and ctx.n is None:
                ctx.n = c[2]
                early.append(c[1])
    if isinstance(n, ast.While):
        extra += guard_invariants(interp, n.test, fr)
    # choose the definitional candidate of every variable
    chosen = {}
    for r in refs:
        role = role_of(entry[r.name])
        if role == 'str':
            role = 'seq'
        for c in (default_candidates() + cands
                  if r.name in guards and not ctx.spec_first else cands):
            if c[0] == role and (r.name, c[1]) not in dropped:
                # quick entry test
                try:
                    v = c[2](ctx, freeze(entry[r.name]), 0)
                except SkipCandidate:
                    continue
                except core.GuestExc:
                    dropped.add((r.name, c[1]))
                    continue
                e = same(entry[r.name], v)
                if e is True or (e is not False and e is not None
                                 and p.prove(e)):
                    chosen[r.name] = c
                    break
                dropped.add((r.name, c[1]))
    invs = [c for c in extra if ('inv', c[1]) not in dropped]
    for c in list(invs):
        g = c[2](ctx, {r.name: r.get() for r in refs}, 0)
        if not (g is True or (g is not False and p.prove(g))):
            dropped.add(('inv', c[1]))
            invs.remove(c)
    interp.loops_cut = getattr(interp, 'loops_cut', set())
    interp.loops_cut.add(lid)

    which = p.choose(2)         # 0: arbitrary iteration, 1: after the loop
    tag = 'k%d' % n.lineno
    k = fresh_int(tag, 0)
    if count is not None:
        if which == 0:
            p.assume(compare('<', k, count))
        else:
            k = count
            p.assume(compare('>=', count, 0))
    ctx.k = k
    if early:
        p.assume(compare('<=', k, ctx.n))
    havocked = []
    for r in refs:
        c = chosen.get(r.name)
        if c is not None:
            val = value(r.name, c, k)
        else:
            keep = None
            if role_of(entry[r.name]) == 'seq' \
                    and (r.name, 'length') not in dropped:
                keep = entry[r.name].length()
            val = havoc(entry[r.name], r.name, keep)
            havocked.append(r.name)
        put(r, val)
    if havocked:
        p.havocked = getattr(p, 'havocked', 0) + 1
        p.lemmas_used.add('arbitrary after %s:%d {%s}' % (
            fr.env.module.name, n.lineno, ', '.join(havocked)))
    for v in locals_only:
        fr.env.vars.pop(v, None)
    for c in invs:
        g = c[2](ctx, {r.name: r.get() for r in refs}, k)
        p.assume(g)

    def preserved():
        k1 = add(k, 1)
        ctx.kprev = k
        ctx.k = k1
        # integers first: they are the simplest explanations
        for phase in ('guard', 'int', 'bool', 'none', 'other', 'seq', 'str'):
            if phase == 'int' and early and not hard_prove(
                    b(compare('<=', k1, ctx.n))):
                dropped.update(early)
                raise Restart('k <= n')
            for r in refs:
                if phase == 'guard':
                    if r.name not in guards:
                        continue
                elif role_of(entry[r.name]) != phase or r.name in guards:
                    continue
                now = r.get()
                c = chosen.get(r.name)
                if c is not None:
                    try:
                        want = value(r.name, c, k1)
                    except SkipCandidate:
                        want = None
                    e = same(now, want, goal=True)
                    if not (e is True or (e is not False and e is not None
                                          and hard_prove(e))):
                        dropped.add((r.name, c[1]))
                        raise Restart('%s:%s' % (r.name, c[1]))
                else:
                    if not same_shape(entry[r.name], now):
                        raise Unsupported(
                            'loop variable %s changes type' % r.name)
                    if phase == 'seq' \
                            and (r.name, 'length') not in dropped:
                        e = eq(now.length(), entry[r.name].length())
                        if not (e is True or (e is not False
                                              and p.prove(e))):
                            dropped.add((r.name, 'length'))
                            raise Restart('%s: length' % r.name)
        for c in invs:
            g = c[2](ctx, {r.name: r.get() for r in refs}, k1)
            if not (g is True or (g is not False and hard_prove(g))):
                dropped.add(('inv', c[1]))
                raise Restart(c[1])
        # candidates dropped while another variable was misunderstood
        again = interp.loop_again.setdefault(lid, {})
        for name in havocked:
            sig = tuple((x, chosen[x][1]) for x in sorted(chosen)) \
                + tuple(early)
            if sig not in again.setdefault(name, set()) \
                    and len(again[name]) < 30:
                again[name].add(sig)
                old = {x for x in dropped if type(x) is tuple
                       and x[0] == name}
                if old:
                    dropped.difference_update(old)
                    raise Restart('again: ' + name)
        p.lemmas_used.add('loop invariant %s:%d {%s}' % (
            fr.env.module.name, n.lineno,
            ', '.join(['%s=%s' % (r.name, chosen[r.name][1])
                       for r in refs if r.name in chosen]
                      + early + [c[1] for c in invs])))

    if which == 0:
        if count is not None:
            interp.assign(n.target, at(k), fr)
        else:
            t = interp.eval(n.test, fr)
            if not interp.truth(t):
                raise PathEnd('loop condition false')
        snap = heap_snapshot(interp, fr)
        done = False
        before = [r.get() for r in refs]
        try:
            interp.exec_block(n.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            done = True
        known = set()
        for base, attr in attrs:
            known.add((id(interp.lookup(base, fr.env)), attr))
        for r in refs:
            if r.owner is not None:
                if interp.lookup(r.owner[0], fr.env) is not r.owner[1]:
                    raise Unsupported('hash object replaced in a loop')
                known.add((id(r.owner[1]), 'data'))
        for r in refs:
            known.add((id(r.get()), None))
        for label, obj, attr in ctx.states:
            known.add((id(obj), attr))
        for o, a in heap_changed(snap, fr):
            if (id(o), a) not in known and not (
                    isinstance(o, Seq) and any(r.get() is o for r in refs)) \
                    and not (isinstance(o, Seq) and any(
                        x is o for x in before)
                        and referrers(o, snap, interp, fr) == 1):
                raise Unsupported('the loop body changes %s%s through a call'
                                  % (type(o).__name__,
                                     '.' + a if a else ''))
        if done:
            return
        preserved()
        raise PathEnd('iteration checked')
    else:
        if count is None:
            t = interp.eval(n.test, fr)
            if interp.truth(t):
                raise PathEnd('loop condition true')
            if ctx.n is not None and not isinstance(k, int) \
                    and p.prove(b(eq(k, ctx.n))):
                # say so in the values, too
                ctx.k = ctx.n
                for r in refs:
                    c = chosen.get(r.name)
                    if c is not None:
                        put(r, value(r.name, c, ctx.n))
        elif at is not None:
            # the loop variable keeps its last value
            if p.branch(compare('>', count, 0)):
                interp.assign(n.target, at(sub(count, 1)), fr)
        interp.exec_block(n.orelse, fr)




def generic_octets(interp, it, count, at, kind):
    """octets each given by a call whose result is not described: what holds
    for an arbitrary one holds for all (in range; maybe never zero)"""
    p = cur()
    lid = ('map', it.effects)
    dropped = interp.loop_dropped.setdefault(lid, set())
    if kind not in ('bytes', 'bytearray'):
        raise Unsupported('list from a stateful function')
    which = p.choose(2)
    if which == 0:
        k = fresh_int('k_map', 0)
        p.assume(compare('<', k, count))
        v = at(k)
        if not is_int(v) or not hard_prove(b(conj([
                compare('<=', 0, v), compare('<=', v, 255)]))):
            raise Unsupported('octet from a stateful function')
        if 'not zero' not in dropped:
            if not hard_prove(b(neg(eq(v, 0)))):
                dropped.add('not zero')
                raise Restart('not zero')
            p.lemmas_used.add('every octet of %s is not zero' % it.effects)
        raise PathEnd('iteration checked')
    base = S.Base(p.fresh_name('map'), count)
    if 'not zero' not in dropped:
        base.without = (0,)
    return Seq(kind, [S.A(base, 0, count)])


def same(x, y, goal=False):
    if y is None and x is not None:
        return False
    if isinstance(x, str) and isinstance(y, Seq):
        x = S.str_seq(x)
    if isinstance(x, Seq) and isinstance(y, Seq):
        if goal:
            return S.seq_eq(x, y, goal=True)
        return S.seq_eq(x, y, goal=True, fork=False)
    return values_equal(x, y, goal)


def same_shape(x, y):
    rx, ry = role_of(x), role_of(y)
    if rx == ry:
        return not (rx == 'seq' and x.kind != y.kind) and (
            rx != 'other' or x is y)
    return {rx, ry} <= {'str', 'seq'}


def put(r, val):
    curv = r.get()
    if isinstance(curv, Seq) and isinstance(val, Seq) \
            and curv.kind not in ('str', 'bytes'):
        # keep identity: other references see the same object
        curv.segs = list(val.segs)
        return
    r.set(val)


def havoc(v, name, length=None):
    p = cur()
    role = role_of(v)
    if role == 'int':
        return fresh_int('h_' + name)
    if role == 'bool':
        return core.fresh_bool('h_' + name)
    if role in ('seq', 'str'):
        kind = 'str' if role == 'str' else v.kind
        nm = p.fresh_name('h_' + name)
        n = fresh_int('len_' + nm, 0) if length is None else length
        if kind == 'list':
            # its elements may be anything: they cannot be looked at
            def unknown(i):
                raise Unsupported('element of list %s changed by the loop'
                                  % name)
            return Seq(kind, [S.A(S.Base(nm, n, 'obj', mkelem=unknown),
                                  0, n)])
        return Seq(kind, [S.A(S.Base(nm, n, 'char' if kind == 'str'
                                     else 'byte'), 0, n)])
    if role == 'none':
        raise Unsupported('loop variable %s starts as None' % name)
    raise Unsupported('loop variable %s cannot be abstracted' % name)


def hard_prove(g):
    from .runner import prove_goal
    st, _ = prove_goal(cur(), g)
    return st == 'unsat'
