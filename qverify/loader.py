"""Loads the real modules of /repo: every run parses the current source, instruments the AST
mechanically and lets CPython execute it, with library imports bound to their models.

What the instrumentation changes (nothing else of the text is altered):
  * for/while statements and comprehensions are driven by the loop rule (native iteration when the
    iterable is concrete);
  * list/dict displays build SList/SDict (list/dict subclasses that log stores);
  * f-strings, str.format and "%" on literals go through helpers that accept symbolic values;
  * a first handler `except (Unsupp, PathAbort): raise` is put in every try;
  * every function gets an innermost decorator (coverage, verified summaries); every class a logged
    __setattr__;
  * builtins are replaced by versions that accept symbolic values.
Dropped: docstring-only statements are kept; type annotations are not evaluated; numba decorators are
identity (the decorated Python text is what is verified); print is a no-op.
"""
import ast
import builtins
import copy
import functools
import operator
import os
import string
import types
from fractions import Fraction

from . import engine as en
from .engine import (SInt, SBool, Num, SymStr, SList, SymRange, SymSeq, LoopFrame, NativeLoop, WhileFrame, Seg,
                     PathAbort, Poison, AttrLoc, mkint, mkbool, ival, num, isnumlike, sym_len, sym_at, sym_iter,
                     sym_map, qv_for)
from .terms import Unsupp, I, ieq, ile, ilt, And, Not, isz
from . import terms as tm

REPO = os.environ.get("QV_REPO", "/repo")


# ----------------------------------------------------------------------------------------------
# AST analysis helpers


class _Names(ast.NodeVisitor):
    """names stored in a block (same scope)"""

    def __init__(self):
        self.out = []

    def add(self, n):
        if n not in self.out:
            self.out.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        self.generic_comp(n)

    def generic_comp(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.add(x.target.id)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        # the bound name is deleted at the end of the handler
        self.generic_visit(n)


def stored(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v.out


class _Flow:
    """names read before definitely assigned, and names not definitely assigned at the end"""

    def __init__(self, names):
        self.names = set(names)
        self.rbw = set()
        self.cont = None

    def reads(self, node, a):
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.names and x.id not in a:
                self.rbw.add(x.id)

    def stores(self, node, a):
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                a.add(x.id)

    def block(self, stmts, a):
        """returns assigned set at fall through, or None if it never falls through"""
        for s in stmts:
            a = self.stmt(s, a)
            if a is None:
                return None
        return a

    def stmt(self, s, a):
        if isinstance(s, ast.Assign):
            self.reads(s.value, a)
            for t in s.targets:
                self.reads(t, a)
            a = set(a)
            for t in s.targets:
                self.stores(t, a)
            return a
        if isinstance(s, ast.AugAssign):
            self.reads(s.value, a)
            self.reads(s.target, a)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.names and s.target.id not in a:
                    self.rbw.add(s.target.id)
                a = a | {s.target.id}
            return a
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.reads(s.value, a)
                a = set(a)
                self.stores(s.target, a)
            return a
        if isinstance(s, ast.If):
            self.reads(s.test, a)
            b = self.block(s.body, set(a))
            c = self.block(s.orelse, set(a))
            if b is None:
                return c
            if c is None:
                return b
            return b & c
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.reads(s.iter, a)
                b = set(a)
                self.stores(s.target, b)
            else:
                self.reads(s.test, a)
                b = set(a)
            saved = self.cont
            self.block(s.body, b)
            self.cont = saved
            self.block(s.orelse, set(a))
            return a
        if isinstance(s, ast.With):
            for i in s.items:
                self.reads(i.context_expr, a)
                if i.optional_vars is not None:
                    a = set(a)
                    self.stores(i.optional_vars, a)
            return self.block(s.body, a)
        if isinstance(s, ast.Try):
            b = self.block(s.body, set(a))
            outs = []
            if b is not None:
                b = self.block(s.orelse, b)
            if b is not None:
                outs.append(b)
            for h in s.handlers:
                c = self.block(h.body, set(a))
                if c is not None:
                    outs.append(c)
            r = None
            for o in outs:
                r = o if r is None else r & o
            if s.finalbody:
                r2 = self.block(s.finalbody, set(a))
                if r is not None and r2 is not None:
                    r = r | (r2 - a)
            return r
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.reads(s, a)
            return a | {s.name}
        if isinstance(s, ast.Continue):
            self.cont = a if self.cont is None else self.cont & a
            return None
        if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
            self.reads(s, a)
            return None
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return a | {(x.asname or x.name).split(".")[0] for x in s.names}
        self.reads(s, a)
        a = set(a)
        self.stores(s, a)
        return a


def flow(body, names, target):
    f = _Flow(names)
    a = set()
    if target is not None:
        f.stores(target, a)
        f.reads(target, a)
    e = f.block(body, a)
    end = e
    if f.cont is not None:
        end = f.cont if end is None else end & f.cont
    if end is not None:
        f.rbw |= {n for n in names if n not in end}
    return [n for n in names if n in f.rbw]


# ----------------------------------------------------------------------------------------------
# Instrumentation


def N(i):
    return ast.Name(i, ast.Load())


def call(f, *args):
    return ast.Call(N(f) if isinstance(f, str) else f, list(args), [])


def attr(o, n):
    return ast.Attribute(o, n, ast.Load())


def const(v):
    return ast.Constant(v)


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.loops = []       # enclosing loop variables within the function
        self.qual = []

    def uid(self, p):
        self.n += 1
        return "_qv%s%d" % (p, self.n)

    # -- scopes
    def visit_FunctionDef(self, n):
        saved, self.loops = self.loops, []
        self.qual.append(n.name)
        key = self.mod + ":" + ".".join(self.qual)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        self.qual.append("<locals>")
        n.body = self.block(n.body)
        self.qual.pop()
        self.qual.pop()
        n.decorator_list = n.decorator_list + [call("_qv_fn_", const(key))]
        self.loops = saved
        return n

    def visit_ClassDef(self, n):
        saved, self.loops = self.loops, []
        self.qual.append(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        n.keywords = [self.visit(b) for b in n.keywords]
        n.body = self.block(n.body)
        self.qual.pop()
        n.decorator_list = n.decorator_list + [call("_qv_cls_")]
        self.loops = saved
        return n

    def visit_Lambda(self, n):
        saved, self.loops = self.loops, []
        self.generic_visit(n)
        self.loops = saved
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass()
        return self.visit(ast.copy_location(ast.Assign([n.target], n.value), n))

    # -- loops
    def visit_For(self, n):
        names = stored([ast.Expr(n.target)] + n.body)
        rbw = flow(n.body, names, n.target)
        L = self.uid("L")
        e = self.uid("e")
        it = self.visit(n.iter)
        tgt = self.visit(n.target)
        self.loops.append(L)
        body = self.block(n.body)
        self.loops.pop()
        orelse = self.block(n.orelse)
        pre = [ast.Assign([ast.Name(L, ast.Store())], call("_qv_for_", it)),
               ast.Expr(call(attr(N(L), "enter"), call("_qv_locals_"), const(tuple(names)), const(tuple(rbw))))]

        def settup(meth):
            if not names:
                return ast.Expr(call(attr(N(L), meth)))
            return ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                              call(attr(N(L), meth)))
        wbody = [
            ast.If(attr(N(L), "sym"), [settup("values")], []),
            ast.Try([ast.Assign([tgt], call(attr(N(L), "item")))] + body,
                    [ast.ExceptHandler(N("_qv_BaseException_"), e,
                                       [ast.Expr(call(attr(N(L), "exc"), N(e)))])], [], []),
        ]
        w = ast.While(call(attr(N(L), "more"), call("_qv_locals_")), wbody,
                      [ast.If(attr(N(L), "sym"), [settup("results")], [])] + orelse)
        return pre + [w]

    def visit_While(self, n):
        names = stored(n.body)
        L = self.uid("W")
        test = self.visit(n.test)
        self.loops.append(L)
        body = self.block(n.body)
        self.loops.pop()
        orelse = self.block(n.orelse)
        pre = [ast.Assign([ast.Name(L, ast.Store())], call("_qv_while_")),
               ast.Expr(call(attr(N(L), "enter"), call("_qv_locals_"), const(tuple(names))))]
        lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), test)
        st = []
        if names:
            st = [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                             call(attr(N(L), "values")))]
        wbody = [ast.If(attr(N(L), "setv"), st + [ast.If(attr(N(L), "skip"), [ast.Continue()], [])], [])] + body
        return pre + [ast.While(call(attr(N(L), "more"), call("_qv_locals_"), lam), wbody, orelse)]

    def visit_Break(self, n):
        return [ast.Expr(call(attr(N(self.loops[-1]), "brk"))), n]

    def visit_Return(self, n):
        self.generic_visit(n)
        if not self.loops:
            return n
        v = self.uid("r")
        return [ast.Assign([ast.Name(v, ast.Store())], n.value or const(None))] + \
            [ast.Expr(call(attr(N(L), "brk"))) for L in self.loops] + [ast.Return(N(v))]

    def visit_Try(self, n):
        n.body = self.block(n.body)
        for h in n.handlers:
            h.type = self.visit(h.type) if h.type is not None else None
            h.body = self.block(h.body)
        n.orelse = self.block(n.orelse)
        n.finalbody = self.block(n.finalbody)
        if n.handlers:
            n.handlers.insert(0, ast.ExceptHandler(N("_qv_ctl_"), None, [ast.Raise()]))
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        return n

    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        n.body = self.block(n.body)
        return n

    # -- comprehensions
    def comp(self, gens, elt, fn):
        g = gens[0]
        x = self.uid("x")
        if len(gens) == 1:
            inner = elt
        else:
            inner = self.comp(gens[1:], elt, "_qv_map_")
        one = ast.ListComp(inner, [ast.comprehension(g.target, ast.Tuple([N(x)], ast.Load()), g.ifs, 0)])
        lam = ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []), one)
        return call(fn, g.iter, lam, const(len(gens) > 1))

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if any(g.is_async for g in n.generators):
            return n
        return self.comp(n.generators, n.elt, "_qv_map_")

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        return self.comp(n.generators, n.elt, "_qv_gen_")

    # -- displays
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return call("_qv_list_", n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return call("_qv_dict_", n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(ast.Tuple([const(v.value)], ast.Load()))
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else const("")
                parts.append(ast.Tuple([self.visit(v.value), const(v.conversion), spec], ast.Load()))
        return call("_qv_fstr_", ast.List(parts, ast.Load()))

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("format", "join"):
            return ast.Call(N("_qv_strm_"), [const(f.attr), f.value] + n.args, n.keywords)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return call("_qv_pct_", n.left, n.right)
        if isinstance(n.op, ast.Mult):
            return call("_qv_mul_", n.left, n.right)
        return n


# ----------------------------------------------------------------------------------------------
# runtime helpers


class SDict(dict):
    def _log(self):
        if len(en.ENG.levels) > 1:
            raise Unsupp("store into a dict inside a symbolic loop")

    def __setitem__(self, k, v):
        self._log()
        dict.__setitem__(self, k, v)

    def __reduce_ex__(self, p):
        return (SDict, (dict(self),))

    def __deepcopy__(self, memo):
        r = SDict()
        memo[id(self)] = r
        for k, v in self.items():
            dict.__setitem__(r, copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        return r


def has_sym(x):
    if isinstance(x, (SInt, SBool, Num, SymStr)) or hasattr(x, "_qv_arr") or hasattr(x, "_qv_opaque"):
        return True
    if isinstance(x, (list, tuple)):
        if isinstance(x, SList) and x.tail:
            return True
        return any(has_sym(y) for y in list.__iter__(x)) if isinstance(x, list) else any(has_sym(y) for y in x)
    return False


def strpart(v):
    if isinstance(v, (str, SymStr)):
        return v
    if isinstance(v, Num) and v.k == "i":
        e = tm.term_to_int(v.t)
        if e is not None:
            return mkint(e) if not isinstance(e, int) else str(e)
    return v


def qv_fstr(parts):
    if not any(has_sym(p[0]) for p in parts):
        out = ""
        for p in parts:
            if len(p) == 1:
                out += p[0]
            else:
                v, conv, spec = p
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                out += format(v, spec)
        return out
    return SymStr([p[0] if len(p) == 1 else strpart(p[0]) if (has_sym(p[0]) or isinstance(p[0], (str, SymStr)))
                   else format(p[0], p[2] if len(p) > 2 else "") for p in parts])


def qv_strm(m, obj, *args, **kw):
    if m == "join" and isinstance(obj, str):
        if len(args) == 1 and isinstance(args[0], (list, tuple)) and has_sym(args[0]):
            ps = []
            for i, x in enumerate(args[0]):
                if i:
                    ps.append(obj)
                ps.append(x)
            return SymStr(ps)
        return obj.join(*[list(a) if isinstance(a, SList) else a for a in args])
    if m == "format" and isinstance(obj, str):
        if not any(has_sym(a) for a in args) and not any(has_sym(a) for a in kw.values()):
            return obj.format(*args, **kw)
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(obj):
            if lit:
                parts.append((lit,))
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupp("format field %r" % field)
            parts.append((v, -1, spec or ""))
        return qv_fstr(parts)
    return getattr(obj, m)(*args, **kw)


def qv_pct(fmt, arg):
    if not has_sym(arg):
        return fmt % arg
    args = list(arg) if isinstance(arg, tuple) else [arg]
    parts = []
    i = 0
    lit = ""
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            lit += c
            i += 1
            continue
        j = i + 1
        while j < len(fmt) and fmt[j] in "0123456789.-+ #l":
            j += 1
        if fmt[j] == "%":
            lit += "%"
        else:
            parts.append(lit)
            lit = ""
            parts.append(strpart(args.pop(0)))
        i = j + 1
    parts.append(lit)
    return SymStr(parts)


def qv_mul(a, b):
    if isinstance(a, (SList, list, tuple)) and isinstance(b, SInt):
        return en.sym_repeat(a, b)
    if isinstance(b, (SList, list, tuple)) and isinstance(a, SInt):
        return en.sym_repeat(b, a)
    if isinstance(a, SList) and isinstance(b, int):
        return SList(list.__mul__(a, b))
    return a * b


def qv_list(x):
    return SList(x)


def qv_map(it, fn, nested):
    n = sym_len(it)
    if n is not None and not isinstance(n, int) and en.ENG.logic.entails(ile(n.e, 0)):
        n = 0
    if n is None or isinstance(n, int):
        out = SList()
        for x in (iter(it) if n is None else [sym_at(it, i) for i in range(n)]):
            for y in fn(x):
                if nested:
                    out.extend(y)
                else:
                    out.append(y)
        return out

    def one(k):
        r = fn(sym_at(it, ival(k)))
        if len(r) != 1:
            raise Unsupp("filtered comprehension over a symbolic range")
        r = r[0]
        if nested:
            raise Unsupp("nested comprehension over a symbolic range")
        return r
    f = sym_map(n.e, one)
    r = SList()
    r.tail = [Seg(n.e, f)]
    return r


def qv_gen(it, fn, nested):
    n = sym_len(it)
    if n is None:
        def g():
            for x in it:
                for y in fn(x):
                    if nested:
                        yield from sym_iter(y)
                    else:
                        yield y
        return g()
    return qv_map(it, fn, nested)


def make_fn_deco():
    def qv_fn(key):
        def deco(f):
            if not isinstance(f, types.FunctionType):
                return f

            bare = key.partition(":")[2]

            @functools.wraps(f)
            def w(*a, **k):
                e = en.ENG
                e.called.add(key)
                s = e.summaries.get(bare)
                if s is not None:
                    return s(f, *a, **k)
                return f(*a, **k)
            w._qv_key = key
            w._qv_raw = f
            return w
        return deco
    return qv_fn


def qv_cls(cls):
    pass


def qv_setattr_method(self, n, v):
    e = en.ENG
    if e is not None and len(e.levels) > 1:
        d = getattr(type(self), n, None)
        if not (d is not None and hasattr(type(d), "__set__")):
            l = AttrLoc(self, n)
            e.log(l, l._loc_get())
    object.__setattr__(self, n, v)


def cls_deco(cls):
    if "__setattr__" not in cls.__dict__ and cls.__setattr__ is object.__setattr__:
        cls.__setattr__ = qv_setattr_method
    cls._qv_cls = True
    return cls


# ----------------------------------------------------------------------------------------------
# builtins


def b_range(*a):
    vals = [en.as_index(x) if not isinstance(x, int) else x for x in a]
    if all(isinstance(v, int) for v in vals):
        return range(*vals)
    lo, hi, st = (0, vals[0], 1) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else 1)
    if not isinstance(st, int):
        raise Unsupp("symbolic range step")
    if st == 0:
        raise ValueError("range() arg 3 must not be zero")
    return SymRange(lo, hi, st)


def b_len(x):
    if isinstance(x, (SymRange, SymSeq)):
        return x.sym_len()
    if isinstance(x, SList):
        return x.sym_len()
    if hasattr(x, "_qv_len"):
        return x._qv_len()
    return len(x)


def b_int(x=0, *a):
    if a or isinstance(x, str):
        return int(x, *a)
    if isinstance(x, (SInt,)):
        return x
    if isinstance(x, SBool):
        return x.as_int()
    if hasattr(x, "_qv_scalar"):
        x = x._qv_scalar()
        if isinstance(x, SInt):
            return x
    if isinstance(x, Num):
        return trunc_num(x)
    return int(x)


def trunc_num(x):
    if x.k == "c":
        raise TypeError("can't convert complex to int")
    v = tm.term_to_int(x.t)
    if v is not None:
        return mkint(v)
    if x.t.is_const():
        return int(x.t.const_val().re)
    if x.k == "i":
        return x
    f = en.ENG
    if bool(x >= 0):
        r = en.floor_num(x, "i")
        return r
    r = en.floor_num(-x, "i")
    return -r


def b_float(x=0.0):
    if isinstance(x, (SInt, SBool)):
        return Num(num(x).t, "f")
    if hasattr(x, "_qv_scalar"):
        x = num(x._qv_scalar())
    if isinstance(x, Num):
        if x.k == "c":
            raise TypeError("can't convert complex to float")
        return Num(x.t, "f")
    if hasattr(x, "_qv_float"):
        return x._qv_float()
    return float(x)


def b_complex(x=0, y=0):
    if isnumlike(x) and isnumlike(y) and (en.is_sym_scalar(x) or en.is_sym_scalar(y)):
        return Num(num(x).t + num(y).t * tm.T(1j), "c")
    if hasattr(x, "_qv_scalar"):
        return Num(num(x._qv_scalar()).t, "c")
    return complex(x, y) if y != 0 or not isinstance(x, str) else complex(x)


def b_abs(x):
    return abs(x)


def b_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return x != 0
    return bool(x)


def b_sum(it, start=0):
    n = sym_len(it)
    if n is None or isinstance(n, int):
        r = start
        for x in sym_iter(it):
            r = r + x
        return r
    k = tm.fresh_int("k")
    fr = sym_map(n.e, lambda i: sym_at(it, ival(i)))
    v = fr(k)
    if isnumlike(v):
        s0 = num(start)
        nv = num(v)
        t = s0.t + nv.t.sum(k, 0, n.e)
        kd = en.kjoin(s0.k, nv.k)
        if kd == "i":
            from .logic import normalise
            from .terms import Term
            e = tm.term_to_int(Term(normalise(t)))
            if e is not None:
                return mkint(e)
        return Num(t, kd)
    if hasattr(v, "_qv_arr"):
        from . import npmodel
        return npmodel.sum_family(v, k, n.e, start)
    raise Unsupp("sum over symbolic sequence")


def _minmax(args, key, default, lt):
    if len(args) == 1:
        n = sym_len(args[0])
        if n is not None and not isinstance(n, int):
            raise Unsupp("min/max over a symbolic sequence")
        args = list(sym_iter(args[0]))
        if not args:
            if default is not _NONE:
                return default
            raise ValueError("min() arg is an empty sequence")
    r = args[0]
    for x in args[1:]:
        a, b = (x, r) if key is None else (key(x), key(r))
        c = lt(a, b)
        if isinstance(c, SBool):
            if en.ENG.logic.entails(c.e):
                r = x
            elif en.ENG.logic.entails(Not(c.e)):
                pass
            elif ival(x) is not None and ival(r) is not None:
                r = mkint(tm.iite(c.e, ival(x), ival(r)))
            elif bool(c):
                r = x
        elif c:
            r = x
    return r


_NONE = object()


def b_min(*a, key=None, default=_NONE):
    return _minmax(a, key, default, lambda x, y: x < y)


def b_max(*a, key=None, default=_NONE):
    return _minmax(a, key, default, lambda x, y: x > y)


def b_enumerate(it, start=0):
    n = sym_len(it)
    if n is None or isinstance(n, int):
        return enumerate(sym_iter(it), start)
    return SymSeq(n.e, lambda i: (mkint(tm.iadd(i, start)), sym_at(it, i)))


def b_zip(*its, strict=False):
    ns = [sym_len(x) for x in its]
    if all(n is None or isinstance(n, int) for n in ns):
        return zip(*[sym_iter(x) for x in its])
    ls = []
    for x, n in zip(its, ns):
        ls.append(ival(b_len(x)))
    m = ls[0]
    for l in ls[1:]:
        if en.ENG.logic.entails(ile(m, l)):
            continue
        if en.ENG.logic.entails(ile(l, m)):
            m = l
            continue
        m = tm.iite(ile(m, l), m, l)
    return SymSeq(m, lambda i: tuple(sym_at(x, i) if sym_len(x) is not None else x[mkint(i)] for x in its))


def b_reversed(x):
    n = sym_len(x)
    if n is None or isinstance(n, int):
        return reversed(x)
    return SymSeq(n.e, lambda i: sym_at(x, tm.isub(tm.isub(n.e, 1), i)))


def b_list(x=()):
    n = sym_len(x)
    if isinstance(x, SList):
        return x.copy()
    if n is None or isinstance(n, int):
        return SList(sym_iter(x))
    r = SList()
    r.tail = [Seg(n.e, lambda i: sym_at(x, i))]
    return r


def b_tuple(x=()):
    n = sym_len(x)
    if n is None or isinstance(n, int):
        return tuple(sym_iter(x))
    return b_list(x)


def b_map(f, *its):
    if len(its) == 1:
        n = sym_len(its[0])
        if n is not None and not isinstance(n, int):
            r = SList()
            r.tail = [Seg(n.e, sym_map(n.e, lambda k: f(sym_at(its[0], ival(k)))))]
            return r
    return map(f, *[sym_iter(x) for x in its])


def b_all(it):
    n = sym_len(it)
    if n is not None and not isinstance(n, int):
        k = tm.fresh_int("k")
        v = sym_map(n.e, lambda i: b_bool(sym_at(it, ival(i))))(k)
        return forall_bool(v, k, n.e)
    for x in sym_iter(it):
        if not x:
            return False
    return True


def b_any(it):
    n = sym_len(it)
    if n is not None and not isinstance(n, int):
        k = tm.fresh_int("k")
        v = sym_map(n.e, lambda i: b_bool(sym_at(it, ival(i))))(k)
        r = forall_bool(mkbool(Not(v)) if not isinstance(v, SBool) else ~v, k, n.e)
        return ~r if isinstance(r, SBool) else not r
    for x in sym_iter(it):
        if x:
            return True
    return False


def forall_bool(v, k, n):
    import z3
    if isinstance(v, bool):
        if v:
            return True
        return mkbool(ile(n, 0))
    rng = And(ile(0, k), ilt(k, n))
    if en.ENG.logic.entails(v.e, given=[rng]):
        return True
    return SBool(z3.ForAll([k], z3.Implies(tm.zb(rng), v.e)), v.heads)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        c = getattr(c, "_qv_pytype", c)
        if isinstance(c, tuple):
            if b_isinstance(x, c):
                return True
            continue
        if isinstance(x, SInt):
            if c in (int, b_int, object) or getattr(c, "_qv_abstract", None) in ("int", "num", "integer"):
                return True
            continue
        if isinstance(x, SBool):
            if c in (bool, int, object):
                return True
            continue
        if isinstance(x, Num):
            if c is object or c is {"i": int, "f": float, "c": complex}[x.k]:
                return True
            if getattr(c, "_qv_abstract", None) in ("num", {"i": "integer", "f": "floating", "c": "complex"}[x.k]):
                return True
            continue
        if isinstance(x, SymStr):
            if c is str:
                return True
            continue
        if isinstance(c, type):
            if isinstance(x, c):
                return True
        elif c is b_int:
            if isinstance(x, int):
                return True
        elif getattr(c, "_qv_abstract", None):
            ab = c._qv_abstract
            if isinstance(x, bool):
                continue
            if isinstance(x, int) and ab in ("int_", ):
                return True
        else:
            raise TypeError("isinstance() arg 2 must be a type")
    return False


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SInt):
            return int
        if isinstance(x, SBool):
            return bool
        if isinstance(x, Num):
            return {"i": int, "f": float, "c": complex}[x.k]
        if isinstance(x, SList):
            return list
        if isinstance(x, SymStr):
            return str
    return type(*a)


class _TypeShadowMeta(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, cls._real)

    def __call__(cls, *a, **k):
        return cls._fn(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


def shadow_type(real, fn):
    return _TypeShadowMeta(real.__name__, (), {"_real": real, "_fn": staticmethod(fn), "_qv_pytype": real,
                                              "__module__": "builtins"})


def b_round(x, nd=None):
    if isinstance(x, (SInt, int)) and nd is None:
        return x
    if isinstance(x, Num):
        v = tm.term_to_int(x.t)
        if v is not None:
            return mkint(v) if nd is None else x
        raise Unsupp("round of a symbolic real")
    return round(x, nd) if nd is not None else round(x)


def b_sorted(x, key=None, reverse=False):
    n = sym_len(x)
    if n is not None and not isinstance(n, int):
        raise Unsupp("sorted of a symbolic sequence")
    return SList(sorted(sym_iter(x), key=key, reverse=reverse))


def b_str(x=""):
    if has_sym(x):
        return SymStr([strpart(x)])
    return str(x)


def b_pow(a, b, m=None):
    return a ** b


def b_divmod(a, b):
    return a // b, a % b


def b_open(*a, **k):
    raise Unsupp("open() in verified code")


def b_print(*a, **k):
    return None


def b_hasattr(o, n):
    return hasattr(o, n)


# ----------------------------------------------------------------------------------------------


class Loader:
    def __init__(self, models, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.models = models          # name -> module object
        self.functions = {}
        self.real_ok = {"copy", "abc", "functools", "operator", "types", "typing", "collections", "enum",
                        "dataclasses", "contextlib", "numbers", "string", "re", "collections.abc", "__future__",
                        "inspect", "textwrap"}
        self.builtins = self.make_builtins()

    def make_builtins(self):
        b = dict(vars(builtins))
        b.update({
            "range": b_range, "len": b_len, "abs": b_abs, "sum": b_sum, "min": b_min, "max": b_max,
            "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "all": b_all,
            "any": b_any, "isinstance": b_isinstance, "round": b_round, "sorted": b_sorted, "pow": b_pow,
            "divmod": b_divmod, "open": b_open, "print": b_print, "reversed": b_reversed,
            "int": shadow_type(int, b_int), "float": shadow_type(float, b_float),
            "complex": shadow_type(complex, b_complex), "bool": shadow_type(bool, b_bool),
            "str": shadow_type(str, b_str), "list": shadow_type(list, b_list), "tuple": shadow_type(tuple, b_tuple),
            "type": shadow_type(type, b_type), "dict": shadow_type(dict, SDict),
            "__import__": self.imp,
            "_qv_for_": qv_for, "_qv_while_": WhileFrame, "_qv_map_": qv_map, "_qv_gen_": qv_gen,
            "_qv_list_": qv_list, "_qv_dict_": SDict, "_qv_fstr_": qv_fstr, "_qv_strm_": qv_strm,
            "_qv_pct_": qv_pct, "_qv_mul_": qv_mul, "_qv_fn_": make_fn_deco(), "_qv_cls_": lambda: cls_deco,
            "_qv_ctl_": (Unsupp, PathAbort), "_qv_BaseException_": BaseException, "_qv_locals_": locals,
        })
        return b

    def imp(self, name, globs=None, locs=None, fromlist=(), level=0):
        if level:
            pkg = globs["__name__"] if globs.get("__path__") else globs["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    try:
                        self.load(name + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m
        return self.load(name.split(".")[0])

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.models:
            return self.models[name]
        if name in self.real_ok or name.split(".")[0] in ("collections",):
            return __import__(name, fromlist=["x"])
        if name.split(".")[0] in self.models:
            raise ModuleNotFoundError("No module named %r (no model)" % name)
        if name.split(".")[0] != "quantum_systems":
            raise Unsupp("import of %s has no model" % name)
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
        path = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(path) and os.path.exists(os.path.join(path, "__init__.py")):
            fn, pkg = os.path.join(path, "__init__.py"), True
        elif os.path.exists(path + ".py"):
            fn, pkg = path + ".py", False
        else:
            raise ModuleNotFoundError("No module named %r" % name)
        with open(fn) as f:
            src = f.read()
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__builtins__ = self.builtins
        if pkg:
            m.__path__ = [path]
            m.__package__ = name
        else:
            m.__package__ = parent
        self.modules[name] = m
        tree = ast.parse(src, fn)
        ins = Instr(name)
        tree.body = ins.block(tree.body)
        ast.fix_missing_locations(tree)
        code = compile(tree, fn, "exec")
        exec(code, m.__dict__)
        if parent:
            setattr(self.modules[parent], name.rpartition(".")[2], m)
        return m
