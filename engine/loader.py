"""Loads the real flowMC modules (every run, from /repo's working tree) into the verifier.

The source text is executed as it is; the only rewriting is mechanical (AST):
  * `for` statements: the original loop is kept for ordinary iterables; for an iterable of symbolic
    length the same body is wrapped in a function and handed to the recurrence engine;
    (`continue` becomes a return of that function, `break` a carried flag that stops the later passes);
  * counting `while v < hi: ...; v += c` loops (hi not changed by the body) are read as for loops over range;
  * list comprehensions and generators with one `for`: kept for ordinary iterables, mapped for symbolic ones;
  * annotations are not evaluated.
Names of built-in functions that meet symbolic values (len, range, int, ...) are rebound."""
import ast
import builtins
import __future__
import os
import sys
import types
from . import fakes
from .ctx import Unsupported
from .arr import asarr

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class _HM(type):
    def __call__(cls, *a, **k):
        return cls.impl(*a, **k)

    def __instancecheck__(cls, x):
        return fakes.h_isinstance(x, cls.real)

    def __getitem__(cls, k):
        return cls.real[k] if cls.real is builtins.list else cls


def _hook(name, f, real):
    return _HM(name, (), {'impl': staticmethod(f), 'real': real})


HOOKS = dict(fakes.BUILTIN_HOOKS)
HOOKS['int'] = _hook('int', fakes.h_int, builtins.int)
HOOKS['float'] = _hook('float', fakes.h_float, builtins.float)
HOOKS['bool'] = _hook('bool', fakes.h_bool, builtins.bool)
HOOKS['str'] = _hook('str', fakes.h_str, builtins.str)
HOOKS['list'] = _hook('list', fakes.h_list, builtins.list)


def _isinst(x, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    return fakes.h_isinstance(x, tuple(c.real if isinstance(c, _HM) else c for c in cs))


HOOKS['isinstance'] = _isinst


# ---------------------------------------------------------------- AST
def _last_wins(names):
    return [v if v not in names[i + 1:] else '_vr_d%d' % i for i, v in enumerate(names)]


def _targets(t, out):
    if isinstance(t, ast.Name):
        if t.id not in out:
            out.append(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            _targets(e, out)
    elif isinstance(t, ast.Starred):
        _targets(t.value, out)
    elif isinstance(t, ast.Subscript):
        r = t.value
        while isinstance(r, (ast.Subscript, ast.Attribute)):
            r = r.value
        if isinstance(r, ast.Name) and r.id not in out and isinstance(t.value, ast.Name):
            out.append(r.id)


class _Scan(ast.NodeVisitor):
    """names assigned, attributes stored, list collectors and control flow of a loop body"""

    def __init__(self):
        self.names = []
        self.attrs = []
        self.app = set()
        self.reads = set()
        self.bad = None
        self.brk = False
        self.loops = 0

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    def visit_Lambda(self, n):
        self.generic_visit(n)

    def visit_For(self, n):
        _targets(n.target, self.names)
        self.visit(n.iter)
        self.loops += 1
        for s in n.body + n.orelse:
            self.visit(s)
        self.loops -= 1

    def visit_While(self, n):
        self.loops += 1
        self.generic_visit(n)
        self.loops -= 1

    def visit_Assign(self, n):
        for t in n.targets:
            self._t(t)
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self._t(n.target)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self._t(n.target)
            self.visit(n.value)

    def visit_NamedExpr(self, n):
        self._t(n.target)
        self.visit(n.value)

    def _t(self, t):
        _targets(t, self.names)
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._t(e)
            return
        if isinstance(t, ast.Attribute):
            self.attrs.append(t)
            self.visit(t.value)
        elif isinstance(t, ast.Subscript):
            self.visit(t.value)
            self.visit(t.slice)

    def visit_With(self, n):
        for i in n.items:
            if i.optional_vars is not None:
                self._t(i.optional_vars)
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.attr in ('append', 'extend'):
            self.app.add(f.value.id)
            for a in n.args:
                self.visit(a)
            return
        self.generic_visit(n)

    def visit_Name(self, n):
        self.reads.add(n.id)

    def visit_Return(self, n):
        self.bad = 'return'

    def visit_Break(self, n):
        if not self.loops:
            self.brk = True

    def visit_Yield(self, n):
        self.bad = 'yield'

    def visit_Global(self, n):
        self.bad = 'global'

    visit_Nonlocal = visit_Global


class _Jump(ast.NodeTransformer):
    """`continue` / `break` of this loop become returns of the loop-body function"""

    def __init__(self, ret, done):
        self.ret = ret
        self.done = done

    def _skip(self, n):
        return n
    visit_For = visit_While = visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = _skip

    def visit_Continue(self, n):
        return self.ret()

    def visit_Break(self, n):
        return [ast.Assign(targets=[ast.Name(self.done, ast.Store())], value=_call('_vr_true')), self.ret()]


def _call(f, *a):
    return ast.Call(func=ast.Name(f, ast.Load()), args=list(a), keywords=[])


class _Tr(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def visit_While(self, n):
        """a counting loop `while v < hi: ...; v += c` is the for loop over range(v, hi, c)"""
        r = self._counting(n)
        if r is None:
            self.generic_visit(n)
            return n
        v, hi, c = r
        import copy
        self.k += 1
        w = '_vr_w%d' % self.k
        out = [ast.Assign(targets=[ast.Name(w, ast.Store())],
                          value=ast.Tuple([ast.Name(v, ast.Load()), hi, ast.Constant(c)], ast.Load()))]
        loop = ast.For(target=ast.Name(v, ast.Store()),
                       iter=ast.Call(func=ast.Name('range', ast.Load()), args=[ast.Starred(ast.Name(w, ast.Load()), ast.Load())], keywords=[]),
                       body=copy.deepcopy(n.body[:-1]), orelse=[])
        t = self.visit_For(loop)
        out += t if isinstance(t, list) else [t]
        out.append(ast.Assign(targets=[ast.Name(v, ast.Store())],
                              value=ast.Call(func=ast.Name('_vr_wend', ast.Load()), args=[ast.Starred(ast.Name(w, ast.Load()), ast.Load())], keywords=[])))
        return out

    def _counting(self, n):
        t, last = n.test, n.body[-1]
        if n.orelse or len(n.body) < 2:
            return None
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name)):
            return None
        v, hi = t.left.id, t.comparators[0]
        if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == v:
            c = last.value
        elif (isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == v
              and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) and last.value.left.id == v):
            c = last.value.right
        else:
            return None
        if not (isinstance(c, ast.Constant) and type(c.value) is int and c.value > 0):
            return None
        sc = _Scan()
        for x in n.body[:-1]:
            sc.visit(x)
        if sc.bad or sc.brk or v in sc.names or any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b)):
            return None
        stored = {a.attr for a in sc.attrs}
        for x in ast.walk(hi):
            if isinstance(x, ast.Name) and (x.id in sc.names or x.id == v or x.id in sc.app):
                return None
            if isinstance(x, ast.Attribute) and x.attr in stored:
                return None
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'min', 'max', 'int', 'abs')):
                return None
            if isinstance(x, (ast.NamedExpr, ast.Lambda, ast.Await)):
                return None
        if isinstance(t.ops[0], ast.LtE):
            hi = ast.BinOp(hi, ast.Add(), ast.Constant(1))
        return v, hi, c.value

    def visit_GeneratorExp(self, n):
        r = self.visit_ListComp(n)
        if isinstance(r, ast.Call):
            r.func = ast.Name('_vr_gen_comp', ast.Load())
        return r

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].ifs or n.generators[0].is_async:
            return n
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)):
            return n
        g = n.generators[0]
        if isinstance(g.target, ast.Name):
            lam = ast.Lambda(args=_args([g.target.id]), body=n.elt)
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            inner = ast.Lambda(args=_args(_last_wins([e.id for e in g.target.elts])), body=n.elt)
            lam = ast.Lambda(args=_args(['_vr_e']),
                             body=ast.Call(func=inner, args=[ast.Starred(value=ast.Name('_vr_e', ast.Load()), ctx=ast.Load())], keywords=[]))
        elif isinstance(g.target, ast.Tuple):           # nested patterns: unpacked in the order of the names
            def pattern(t):
                if isinstance(t, ast.Name):
                    return ast.Constant(None)
                if isinstance(t, ast.Tuple):
                    es = [pattern(e) for e in t.elts]
                    return None if any(e is None for e in es) else ast.Tuple(es, ast.Load())
                return None
            pt = pattern(g.target)
            if pt is None:
                return n
            names = []

            def leaves(t):
                for e in t.elts:
                    leaves(e) if isinstance(e, ast.Tuple) else names.append(e.id)
            leaves(g.target)
            inner = ast.Lambda(args=_args(_last_wins(names)), body=n.elt)
            flat = ast.Call(func=ast.Name('_vr_unpack', ast.Load()), args=[ast.Name('_vr_e', ast.Load()), pt], keywords=[])
            lam = ast.Lambda(args=_args(['_vr_e']),
                             body=ast.Call(func=inner, args=[ast.Starred(value=flat, ctx=ast.Load())], keywords=[]))
        else:
            return n
        return ast.Call(func=ast.Name('_vr_list_comp', ast.Load()), args=[g.iter, lam], keywords=[])

    def visit_For(self, n):
        sc = _Scan()
        names = []
        _targets(n.target, names)
        for s in n.body:
            sc.visit(s)
        self.k += 1
        k = self.k
        self.generic_visit(n)
        bad = sc.bad or ('else' if n.orelse else None)
        it, sy, bn = '_vr_it%d' % k, '_vr_sym%d' % k, '_vr_body%d' % k
        first = ast.Assign(targets=[ast.Tuple([ast.Name(sy, ast.Store()), ast.Name(it, ast.Store())], ast.Store())],
                           value=ast.Call(func=ast.Name('_vr_loop_iter', ast.Load()), args=[n.iter], keywords=[]))
        if bad:
            sym = [ast.Expr(ast.Call(func=ast.Name('_vr_unsupported', ast.Load()),
                                     args=[ast.Constant('%s in a loop of symbolic length' % bad)], keywords=[]))]
        else:
            allnames = list(names)
            for x in sc.names:
                if x not in allnames:
                    allnames.append(x)
            done = '_vr_done%d' % k
            if sc.brk:
                allnames.append(done)
                first = [ast.Assign(targets=[ast.Name(done, ast.Store())], value=_call('_vr_false')), first]
            lists = [x for x in sorted(sc.app) if x not in sc.reads and x not in allnames]
            rest = [x for x in sorted(sc.app) if x not in lists and x not in allnames]
            allnames += lists + rest
            attrs = [a for a in sc.attrs if isinstance(a.value, ast.Name) and a.value.id not in allnames]
            badattr = [a for a in sc.attrs if not isinstance(a.value, ast.Name)]
            if rest or badattr:
                sym = [ast.Expr(ast.Call(func=ast.Name('_vr_unsupported', ast.Load()),
                                         args=[ast.Constant('list both read and extended in a loop of symbolic length')], keywords=[]))]
            else:
                body = [ast.Assign(targets=[n.target], value=ast.Name('_vr_elem', ast.Load()))] + list(n.body)
                import copy
                body = copy.deepcopy(body)

                def ret():
                    return ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in allnames], ast.Load()))
                jmp = _Jump(ret, done)
                new = []
                for b in body:
                    b = jmp.visit(b)
                    new += b if isinstance(b, list) else [b]
                body = new + [ret()]
                if sc.brk:
                    body.insert(0, ast.If(test=ast.Name(done, ast.Load()), body=[ret()], orelse=[]))
                fd = ast.FunctionDef(name=bn, args=_args(['_vr_elem'] + allnames), body=body, decorator_list=[], type_params=[])
                seen = []
                al = []
                for a in attrs:
                    if (a.value.id, a.attr) not in seen:
                        seen.append((a.value.id, a.attr))
                        al.append(ast.Tuple([ast.Name(a.value.id, ast.Load()), ast.Constant(a.attr)], ast.Load()))
                call = ast.Call(func=ast.Name('_vr_run_loop', ast.Load()), args=[
                    ast.Name(it, ast.Load()), ast.Name(bn, ast.Load()),
                    ast.List([ast.Constant(x) for x in allnames], ast.Load()),
                    ast.List([ast.Call(func=ast.Name('_vr_get', ast.Load()),
                                       args=[ast.Call(func=ast.Name('_vr_locals', ast.Load()), args=[], keywords=[]), ast.Constant(x)], keywords=[])
                              for x in allnames], ast.Load()),
                    ast.List([ast.Constant(x) for x in lists], ast.Load()),
                    ast.List(al, ast.Load())], keywords=[])
                if allnames:
                    asg = ast.Assign(targets=[ast.Tuple([ast.Name(x, ast.Store()) for x in allnames], ast.Store())], value=call)
                else:
                    asg = ast.Expr(call)
                sym = [fd, asg]
        conc = ast.For(target=n.target, iter=ast.Name(it, ast.Load()), body=n.body, orelse=n.orelse)
        first = first if isinstance(first, list) else [first]
        return first + [ast.If(test=ast.Name(sy, ast.Load()), body=sym, orelse=[conc])]


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])


class World:
    """One loaded instance of the flowMC package."""

    def __init__(self, src=SRC):
        self.src = src
        self.mods = {}
        self.files = {}

    def path(self, name):
        p = os.path.join(self.src, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        f, pkg = self.path(name)
        if not os.path.exists(f):
            if pkg:
                m = types.ModuleType(name)
                m.__path__ = []
                self.mods[name] = m
                return m
            raise ModuleNotFoundError(name)
        text = open(f).read()
        self.files[name] = f
        tree = ast.parse(text, f)
        tree = ast.fix_missing_locations(_Tr().visit(tree))
        code = compile(tree, f, 'exec', flags=__future__.annotations.compiler_flag, dont_inherit=True)
        m = types.ModuleType(name)
        m.__file__ = f
        g = m.__dict__
        b = dict(vars(builtins))
        b['__import__'] = self._import
        g['__builtins__'] = b
        g.update(HOOKS)
        g['_vr_loop_iter'] = fakes.loop_iter
        g['_vr_run_loop'] = fakes.run_loop
        g['_vr_list_comp'] = fakes.list_comp
        g['_vr_unpack'] = fakes.unpack
        g['_vr_gen_comp'] = fakes.gen_comp
        g['_vr_get'] = fakes.loop_get
        g['_vr_locals'] = builtins.locals
        g['_vr_unsupported'] = fakes.unsupported
        g['_vr_wend'] = fakes.while_end
        g['_vr_true'] = lambda: asarr(True)
        g['_vr_false'] = lambda: asarr(False)
        g['__package__'] = name if pkg else name.rpartition('.')[0]
        self.mods[name] = m
        sys.modules[name] = m
        try:
            exec(code, g)
        except BaseException:
            del self.mods[name]
            raise
        if '.' in name:
            par, _, last = name.rpartition('.')
            setattr(self.load(par), last, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name == 'flowMC' or name.startswith('flowMC.'):
            m = self.load(name)
            for x in fromlist or ():
                if not hasattr(m, x) and x != '*':
                    try:
                        setattr(m, x, self.load(name + '.' + x))
                    except ModuleNotFoundError:
                        pass
            return m if fromlist else self.load(name.split('.')[0])
        if name in fakes.MODULES:
            m = fakes.MODULES[name]
            if fromlist:
                for x in fromlist:
                    if name + '.' + x in fakes.MODULES:
                        setattr(m, x, fakes.MODULES[name + '.' + x])
                return m
            return fakes.MODULES[name.split('.')[0]]
        if name.split('.')[0] in fakes.REAL_OK:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise Unsupported('import of ' + name)

    def __getitem__(self, k):
        return self.load('flowMC.' + k if not k.startswith('flowMC') else k)

    def all(self):
        out = []
        for d, _, fs in os.walk(os.path.join(self.src, 'flowMC')):
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.src)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    out.append(rel)
        return sorted(out)
