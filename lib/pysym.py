"""Symbolic execution of Python code: the module's source is loaded with its strings replaced by symbolic strings,
executed once per path (re-execution along decision prefixes), with z3 deciding every branch and assertion.

A symbolic string has a concrete length and characters that are code points or z3 terms. Branching happens wherever
Python asks for a truth value, a hash or an order. Hashes are kept consistent with equality by interning, so that the
interpreter's own dict and set work on symbolic keys."""
import ast, builtins, importlib, os, sys, time, types
import z3

W = 21
WS = [(0x09, 0x0d), (0x1c, 0x20), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]
LINEENDS = [(0x0a, 0x0d), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029)]


class Unsupported(BaseException):
    pass


class Killed(BaseException):
    pass


class Engine:
    def __init__(self, max_paths=200000, max_seconds=60, timeout_ms=10000):
        self.max_paths, self.max_seconds = max_paths, max_seconds
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.stats = dict(paths=0, killed=0, queries=0, q_sat=0, q_unsat=0, q_unknown=0, solver_s=0.0, branches=0)
        self.assertions, self.reach, self.incomplete = {}, {}, {}
        self.violations, self.samples = [], {}
        self.concrete = None

    # -- solver
    def ask(self, *conds):
        t = time.time()
        r = self.solver.check(*conds)
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats["q_" + str(r)] += 1
        if r == z3.unknown:
            self.inc("solver gave no answer")
        return r

    def inc(self, why):
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    # -- path state
    def start(self, prefix):
        self.prefix, self.pos, self.decisions = prefix, 0, []
        self.inputs, self.intern, self.outs = {}, [], []
        self.solver.pop() if self.solver.num_scopes() else None
        self.solver.push()

    def add(self, c):
        self.solver.add(c)

    def decide(self, options):
        """options: list of z3 conditions (None = unconditional) that exclude each other; returns the index of the one taken"""
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            feas = []
            for i, c in enumerate(options):
                if c is None or self.ask(c) != z3.unsat:
                    feas.append(i)
            if not feas:
                raise Killed()
            k = feas[0]
            for i in feas[1:]:
                self.work.append(self.decisions + [i])
            self.prefix = self.prefix + [k]
            self.stats["branches"] += 1
        self.pos += 1
        self.decisions = self.decisions + [k]
        if options[k] is not None:
            self.add(options[k])
        return k

    def truth(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.decide([c, z3.Not(c)]) == 0

    # -- harness interface
    def choose(self, name, n):
        if self.concrete is not None:
            return self.concrete[name]
        k = self.decide([None] * n)
        self.inputs[name] = k
        return k

    def string(self, name, n):
        if self.concrete is not None:
            return self.concrete[name]
        v = [z3.BitVec("%s_%d" % (name, i), W) for i in range(n)]
        for x in v:
            self.add(z3.And(z3.ULE(x, 0x10ffff), z3.Or(z3.ULT(x, 0xd800), z3.UGT(x, 0xdfff)), x != 0))
        s = S(v)
        self.inputs[name] = s
        return s

    def assume(self, c):
        if not isinstance(c, bool):
            self.add(c)
            if self.ask() == z3.unsat:
                raise Killed()
        elif not c:
            raise Killed()

    def mark(self, label):
        self.reach[label] = self.reach.get(label, 0) + 1
        self.label = label

    def check(self, c, msg):
        self.assertions[msg] = self.assertions.get(msg, 0) + 1
        if self.concrete is not None:
            if not c:
                self.violations.append(dict(kind="assertion", msg=msg, inputs=self.concrete, stack=""))
                raise Killed()
            return
        if isinstance(c, bool):
            if not c:
                self.violate("assertion", msg)
                raise Killed()
            return
        r = self.ask(z3.Not(c))
        if r == z3.sat:
            self.violate("assertion", msg, z3.Not(c))
            self.assume(c)
        else:
            self.add(c)

    def model(self, *extra):
        if self.ask(*extra) != z3.sat:
            return None
        m = self.solver.model()
        res = {}
        for k, v in self.inputs.items():
            res[k] = v.concrete(m) if isinstance(v, S) else v
        return res

    def violate(self, kind, msg, *extra, stack=""):
        if any(v["kind"] == kind and v["msg"] == msg for v in self.violations):
            return
        inp = self.model(*extra)
        if inp is not None:
            self.violations.append(dict(kind=kind, msg=msg, inputs=inp, stack=stack))

    def explore(self, fn):
        import traceback
        self.work = [[]]
        t0 = time.time()
        while self.work:
            if time.time() - t0 > self.max_seconds:
                self.inc("time limit")
                break
            if self.stats["paths"] >= self.max_paths:
                self.inc("path limit")
                break
            self.start(self.work.pop())
            self.label = None
            try:
                fn(self)
                self.stats["paths"] += 1
                if self.label and (self.label not in self.samples or (len(self.samples) < 40 and self.stats["paths"] % 37 == 0)):
                    m = self.model()
                    if m is not None:
                        self.samples[self.label if self.label not in self.samples else "%s#%d" % (self.label, self.stats["paths"])] = m
            except Killed:
                self.stats["killed"] += 1
            except Unsupported as e:
                self.inc("unsupported: %s" % e)
            except RecursionError:
                self.violate("exception", "RecursionError")
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                self.violate("exception", "%s: %s" % (type(e).__name__, "".join(ch for ch in str(e) if " " <= ch < "\x7f")[:80]), stack="\n".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]))
            if len(self.violations) >= 6:
                break
        self.wall = time.time() - t0


E = None


def conj(cs):
    r = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            r.append(c)
    return True if not r else r[0] if len(r) == 1 else z3.And(r)


def disj(cs):
    r = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            r.append(c)
    return False if not r else r[0] if len(r) == 1 else z3.Or(r)


def neg(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b


def inrange(c, ranges):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in ranges)
    return z3.Or([z3.And(z3.UGE(c, a), z3.ULE(c, b)) if a != b else c == a for a, b in ranges])


class StrMeta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or type(x) is builtins.str


class S(metaclass=StrMeta):
    __slots__ = ("c",)

    def __new__(cls, x="", *a):
        if type(x) is S:
            return x
        r = object.__new__(cls)
        if type(x) is builtins.str:
            r.c = tuple(ord(k) for k in x)
        elif type(x) in (list, tuple) and all(isinstance(k, (int, z3.BitVecRef)) for k in x) and not a and x:
            r.c = tuple(x)
        elif hasattr(type(x), "__str__"):
            y = type(x).__str__(x) if not isinstance(x, (list, tuple, dict, set)) else builtins.str(x)
            r.c = y.c if type(y) is S else tuple(ord(k) for k in y)
        return r

    @staticmethod
    def raw(c):
        r = object.__new__(S)
        r.c = tuple(c)
        return r

    def isconc(self):
        return all(type(k) is int for k in self.c)

    def concrete(self, m):
        return "".join(chr(k if type(k) is int else m.eval(k, model_completion=True).as_long()) for k in self.c)

    def plain(self):
        """the concrete string; forks over all values (up to a limit)"""
        if self.isconc():
            return "".join(map(chr, self.c))
        out = []
        for k in self.c:
            if type(k) is int:
                out.append(k)
                continue
            vals, blk = [], []
            while len(vals) < 40:
                if E.ask(*blk) != z3.sat:
                    break
                v = E.solver.model().eval(k, model_completion=True).as_long()
                vals.append(v)
                blk.append(k != v)
            else:
                raise Unsupported("a concrete value of a symbolic string is needed")
            vals.sort()
            out.append(vals[E.decide([k == v for v in vals])])
        return "".join(map(chr, out))

    # equality as a term
    def eqt(self, o):
        o = S(o) if type(o) is builtins.str else o
        if type(o) is not S or len(o.c) != len(self.c):
            return False
        return conj([ceq(a, b) for a, b in zip(self.c, o.c)])

    def __eq__(self, o):
        return E.truth(self.eqt(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        for s, h in E.intern:
            if len(s.c) == len(self.c) and (s.c is self.c or not (s.isconc() and self.isconc())) and E.truth(s.eqt(self)):
                return h
        if self.isconc():
            h = hash("".join(map(chr, self.c)))
            if not any(s.c == self.c for s, _ in E.intern if s.isconc()):
                E.intern.append((self, h))
            return h
        h = 1000003 * (len(E.intern) + 1)
        E.intern.append((self, h))
        return h

    def cmp(self, o):
        o = S(o)
        for a, b in zip(self.c, o.c):
            if E.truth(ceq(a, b)):
                continue
            a = z3.BitVecVal(a, W) if type(a) is int else a
            return -1 if E.truth(z3.ULT(a, b)) else 1
        return (len(self.c) > len(o.c)) - (len(self.c) < len(o.c))

    def __lt__(self, o): return self.cmp(o) < 0
    def __le__(self, o): return self.cmp(o) <= 0
    def __gt__(self, o): return self.cmp(o) > 0
    def __ge__(self, o): return self.cmp(o) >= 0
    def __len__(self): return len(self.c)
    def __bool__(self): return len(self.c) > 0

    def __iter__(self):
        for k in self.c:
            yield S.raw((k,))

    def __getitem__(self, i):
        return S.raw(self.c[i]) if isinstance(i, slice) else S.raw((self.c[i],))

    def __add__(self, o):
        if type(o) not in (S, builtins.str):
            return NotImplemented
        return S.raw(self.c + S(o).c)

    def __radd__(self, o):
        if type(o) not in (S, builtins.str):
            return NotImplemented
        return S.raw(S(o).c + self.c)

    def __mul__(self, n): return S.raw(self.c * n)
    __rmul__ = __mul__
    def __str__(self): return self.plain()
    def __repr__(self): return repr(self.plain()) if self.isconc() else "<symbolic>"
    def __int__(self): return builtins.int(self.plain())
    def __float__(self): return builtins.float(self.plain())
    def __format__(self, spec): return format(self.plain(), builtins.str(spec))
    def __mod__(self, a): return self.plain() % (tuple(x.plain() if type(x) is S else x for x in a) if isinstance(a, tuple) else a.plain() if type(a) is S else a)
    def encode(self, *a): return self.plain().encode(*[builtins.str(x) for x in a])

    def matches(self, i, sub):
        return len(self.c) >= i + len(sub.c) and conj([ceq(a, b) for a, b in zip(self.c[i:i + len(sub.c)], sub.c)])

    def __contains__(self, o):
        o = S(o)
        return E.truth(disj([self.matches(i, o) for i in range(0, len(self.c) - len(o.c) + 1)])) if len(o.c) <= len(self.c) else False

    def find(self, sub, start=0, end=None):
        sub = S(sub)
        n = len(self.c) if end is None else min(len(self.c), end if end >= 0 else max(0, len(self.c) + end))
        start = start if start >= 0 else max(0, len(self.c) + start)
        for i in range(start, n - len(sub.c) + 1):
            if E.truth(self.matches(i, sub)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = S(sub)
        n = len(self.c) if end is None else min(len(self.c), end)
        for i in range(n - len(sub.c), start - 1, -1):
            if E.truth(self.matches(i, sub)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        sub = S(sub)
        n, i = 0, 0
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n, i = n + 1, i + max(1, len(sub))

    def _isin(self, c, chars):
        return inrange(c, WS) if chars is None else disj([ceq(c, k) for k in S(chars).c])

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.c) and E.truth(self._isin(self.c[i], chars)):
            i += 1
        return S.raw(self.c[i:])

    def rstrip(self, chars=None):
        i = len(self.c)
        while i > 0 and E.truth(self._isin(self.c[i - 1], chars)):
            i -= 1
        return S.raw(self.c[:i])

    def strip(self, chars=None): return self.lstrip(chars).rstrip(chars)

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(self.startswith(x, start) for x in p)
        return E.truth(self.matches(start, S(p)))

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        p = S(p)
        return len(p.c) <= len(self.c) and E.truth(self.matches(len(self.c) - len(p.c), p))

    def removeprefix(self, p): return S.raw(self.c[len(p):]) if self.startswith(p) else self
    def removesuffix(self, p): return S.raw(self.c[:len(self.c) - len(p)]) if len(p) and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        res, i = [], 0
        if sep is None:
            cur = []
            for n, k in enumerate(self.c):
                if E.truth(inrange(k, WS)):
                    if cur:
                        res.append(S.raw(cur))
                        cur = []
                else:
                    if not cur and maxsplit >= 0 and len(res) >= maxsplit:
                        res.append(S.raw(self.c[n:]).rstrip())
                        return res
                    cur.append(k)
            return res + [S.raw(cur)] if cur else res
        sep = S(sep)
        if not len(sep):
            raise ValueError("empty separator")
        while maxsplit < 0 or len(res) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            res.append(S.raw(self.c[i:j]))
            i = j + len(sep)
        return res + [S.raw(self.c[i:])]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None or len(sep) != 1:
            raise Unsupported("rsplit")
        res, e = [], len(self.c)
        while len(res) < maxsplit:
            j = self.rfind(sep, 0, e)
            if j < 0:
                break
            res.insert(0, S.raw(self.c[j + 1:e]))
            e = j
        return [S.raw(self.c[:e])] + res

    def splitlines(self, keepends=False):
        res, cur = [], []
        i = 0
        while i < len(self.c):
            k = self.c[i]
            if E.truth(inrange(k, LINEENDS)):
                end = [k]
                if E.truth(ceq(k, 13)) and i + 1 < len(self.c) and E.truth(ceq(self.c[i + 1], 10)):
                    i += 1
                    end.append(self.c[i])
                res.append(S.raw(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(k)
            i += 1
        return res + [S.raw(cur)] if cur else res

    def partition(self, sep):
        i = self.find(sep)
        return (self, S(""), S("")) if i < 0 else (S.raw(self.c[:i]), S(sep), S.raw(self.c[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        return (S(""), S(""), self) if i < 0 else (S.raw(self.c[:i]), S(sep), S.raw(self.c[i + len(sep):]))

    def join(self, xs):
        out = []
        for n, x in enumerate(xs):
            if type(x) not in (S, builtins.str):
                raise TypeError("sequence item %d: expected str instance, %s found" % (n, type(x).__name__))
            if n:
                out.extend(self.c)
            out.extend(S(x).c)
        return S.raw(out)

    def replace(self, a, b, count=-1):
        a, b = S(a), S(b)
        if not len(a):
            raise Unsupported("replace of an empty string")
        out, i, n = [], 0, 0
        while i < len(self.c):
            if (count < 0 or n < count) and E.truth(self.matches(i, a)):
                out.extend(b.c)
                i += len(a.c)
                n += 1
            else:
                out.append(self.c[i])
                i += 1
        return S.raw(out)

    def _cls(self, f):
        return S(getattr(self.plain(), f)())

    def isdigit(self):
        return len(self.c) > 0 and all(E.truth(inrange(k, [(48, 57)])) if type(k) is not int else chr(k).isdigit() for k in self.c)

    def isspace(self):
        return len(self.c) > 0 and all(E.truth(inrange(k, WS)) for k in self.c)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(self.plain(), name)
        def call(*a, **kw):
            r = f(*[x.plain() if type(x) is S else x for x in a], **{k: x.plain() if type(x) is S else x for k, x in kw.items()})
            return S(r) if type(r) is builtins.str else [S(x) for x in r] if type(r) is list else r
        return call


def eqt(a, b):
    """equality of two results as a truth value or term"""
    if type(a) is S or type(b) is S:
        if type(a) is S:
            return a.eqt(b)
        return b.eqt(a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and conj([eqt(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        r = []
        for k, v in a.items():
            if k not in b:
                return False
            r.append(eqt(v, b[k]))
        return conj(r)
    return a == b


class Rewrite(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is builtins.str:
            return ast.copy_location(ast.Call(func=ast.Name(id="str", ctx=ast.Load()), args=[n], keywords=[]), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.format_spec is None:
                parts.append(ast.Call(func=ast.Name(id="str", ctx=ast.Load()), args=[self.visit(v.value)], keywords=[]))
            else:
                return n
        return ast.copy_location(ast.Call(func=ast.Attribute(value=ast.Call(func=ast.Name(id="str", ctx=ast.Load()), args=[ast.Constant(value="")], keywords=[]), attr="join", ctx=ast.Load()),
                                          args=[ast.List(elts=parts, ctx=ast.Load())], keywords=[]), n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):     # documentation strings
            return n
        return self.generic_visit(n)

    def visit_Match(self, n):
        for c in n.cases:
            c.body = [self.visit(x) for x in c.body]
        n.subject = self.visit(n.subject)
        return n


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)


class Int(metaclass=IntMeta):
    def __new__(cls, x=0, *a):
        return builtins.int(x.plain(), *a) if type(x) is S else builtins.int(x, *a)


def load(pkgdir, pkg, functions=None):
    """loads a package from source with symbolic strings; returns the package module"""
    def name(m):
        return "symx_" + m
    ns = {"str": S, "int": Int}
    mods = {}
    def get(mod):
        if mod in mods:
            return mods[mod]
        path = os.path.join(pkgdir, *mod.split(".")[1:])
        path = os.path.join(path, "__init__.py") if os.path.isdir(path) else path + ".py"
        src = open(path).read()
        tree = ast.parse(src, path)
        if functions is not None:
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef,)):
                    functions.append("%s:%s" % (os.path.basename(path), n.name))
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        m = types.ModuleType(name(mod))
        m.__file__ = path
        m.__package__ = name(mod) if path.endswith("__init__.py") else name(mod).rpartition(".")[0]
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
        m.__dict__.update(ns)
        mods[mod] = m
        sys.modules[name(mod)] = m
        exec(compile(tree, path, "exec"), m.__dict__)
        return m
    class Finder:
        def find_spec(self, full, path=None, target=None):
            if full.startswith("symx_" + pkg + "."):
                mod = full[len("symx_"):]
                return importlib.machinery.ModuleSpec(full, Loader(mod))
            return None
    class Loader:
        def __init__(self, mod): self.mod = mod
        def create_module(self, spec):
            return None
        def exec_module(self, m):
            path = os.path.join(pkgdir, *self.mod.split(".")[1:])
            path = os.path.join(path, "__init__.py") if os.path.isdir(path) else path + ".py"
            tree = ast.parse(open(path).read(), path)
            if functions is not None:
                for n in ast.walk(tree):
                    if isinstance(n, ast.FunctionDef):
                        functions.append("%s:%s" % (os.path.basename(path), n.name))
            tree = ast.fix_missing_locations(Rewrite().visit(tree))
            m.__file__ = path
            m.__dict__.update(ns)
            exec(compile(tree, path, "exec"), m.__dict__)
    for f in [f for f in sys.meta_path if getattr(f, "symx", None)]:
        sys.meta_path.remove(f)
    for k in [k for k in sys.modules if k.startswith("symx_" + pkg)]:
        del sys.modules[k]
    fi = Finder()
    fi.symx = True
    sys.meta_path.insert(0, fi)
    return get(pkg)
