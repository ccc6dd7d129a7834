"""Reads back formulas printed by the code generator and evaluates them in a model given by
Logic.tla. Used to keep generated certificates away from a known finding; what is true of
goals and axioms is computed by the specification itself."""
import itertools, re

TOKEN = re.compile(r"\s*(->|!=|[A-Za-z_][A-Za-z_0-9]*|[(){}.,:=\[\]])")
PREC = {"=": 7, "!=": 7, "or": 5, "and": 5, "iff": 4, "implies": 3}


class Unread(Exception):
    pass


class Parser:
    def __init__(self, text):
        self.toks, i = [], 0
        text = text.strip()
        while i < len(text):
            m = TOKEN.match(text, i)
            if not m:
                raise Unread(text[i:i + 20])
            self.toks.append(m.group(1))
            i = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self, want=None):
        t = self.peek()
        if t is None or (want is not None and t != want):
            raise Unread("%s wanted, %s found" % (want, t))
        self.i += 1
        return t

    def block(self):
        self.next("{")
        e = self.expr(0)
        self.next("}")
        return e

    def type(self):
        if self.peek() == "(":
            self.next()
            args = [self.type()]
            while self.peek() == ",":
                self.next()
                args.append(self.type())
            self.next(")")
        else:
            args = [self.next()]
        if self.peek() == "->":
            self.next()
            return ("fun", args, self.type())
        if len(args) != 1:
            raise Unread("type")
        return args[0]

    def binders(self):
        self.next("(")
        res = []
        while True:
            name = self.next()
            self.next(":")
            res.append((name, self.type()))
            if self.next() == ")":
                return res

    def atom(self):
        t = self.next()
        if t == "not":
            e = ("not", self.expr(6))
            return e
        if t == "(":
            e = self.expr(0)
            self.next(")")
        elif t in ("forall", "exists", "function"):
            bs = self.binders()
            e = (t, bs, self.block())
        elif t == "if":
            c = self.expr(0)
            a = self.block()
            self.next("else")
            e = ("if", c, a, self.block())
        elif t == "match":
            c = self.expr(0)
            self.next("{")
            cases = {}
            while self.peek() != "}":
                self.next("Color")
                self.next(".")
                k = self.next()
                cases[k] = self.block()
            self.next("}")
            if set(cases) != {"red", "blue"}:
                raise Unread("match")
            e = ("if", ("=", c, ("lit", 1)), cases["red"], cases["blue"])
        elif re.match(r"[A-Za-z_]", t):
            e = ("name", t)
        else:
            raise Unread(t)
        while self.peek() in ("(", "."):
            if self.next() == ".":
                f = self.next()
                if e == ("name", "Color"):
                    e = ("lit", {"red": 1, "blue": 2}[f])
                elif e == ("name", "Box"):
                    e = ("name", "Box." + f)
                else:
                    e = ("call", ("name", "Box." + f), [e])
            else:
                args = [self.expr(0)]
                while self.peek() == ",":
                    self.next()
                    args.append(self.expr(0))
                self.next(")")
                e = ("call", e, args)
        return e

    def expr(self, prec):
        left = self.atom()
        while self.peek() in PREC and PREC[self.peek()] > prec:
            op = self.next()
            left = (op, left, self.expr(PREC[op]))
        return left


def parse(text):
    p = Parser(text)
    e = p.expr(0)
    if p.peek() is not None:
        raise Unread("trailing " + p.peek())
    return e


class Model:
    """Values are made hashable; functions are dicts from argument tuples."""
    def __init__(self, problem, extra=None):
        self.nD, self.nE = problem["nD"], problem["nE"]
        self.names = {}
        for k, v in problem["model"].items():
            if isinstance(v, list) and (not v or isinstance(v[0], list)):
                self.names[k] = ("table", {tuple(self.val(x) for x in tup): self.val(y) for tup, y in v})
            else:
                self.names[k] = self.val(v)
        self.names["true"], self.names["false"] = True, False
        self.names["Box.new"] = ("fn", lambda a, b: (a, b))
        self.names["Box.fst"] = ("fn", lambda x: x[0])
        self.names["Box.snd"] = ("fn", lambda x: x[1])
        self.names.update(extra or {})

    def val(self, v):
        return tuple(v) if isinstance(v, list) else v

    def dom(self, ty):
        if isinstance(ty, tuple):
            args = list(itertools.product(*[self.dom(a) for a in ty[1]]))
            res = self.dom(ty[2])
            return [("table", dict(zip(args, vals))) for vals in itertools.product(res, repeat=len(args))]
        if ty == "Dm":
            return list(range(1, self.nD + 1))
        if ty == "Em":
            return list(range(1, self.nE + 1))
        if ty == "Color":
            return [1, 2]
        if ty == "Bool":
            return [True, False]
        if ty == "Box":
            return [(a, b) for a in self.dom("Dm") for b in (1, 2)]
        raise Unread(str(ty))

    def apply(self, f, args):
        if not (isinstance(f, tuple) and f and f[0] in ("table", "fn")):
            raise Unread("application of a value")
        if f[0] == "fn":
            try:
                return f[1](*args)
            except TypeError:
                raise Unread("partial application")
        args = tuple(args)
        if args in f[1]:
            return f[1][args]
        rest = {k[len(args):]: v for k, v in f[1].items() if k[:len(args)] == args}
        if not rest:
            raise Unread("application outside the table")
        return ("table", rest)

    def ev(self, e, env):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "name":
            if e[1] in env:
                return env[e[1]]
            if e[1] in self.names:
                return self.names[e[1]]
            raise Unread("unknown name " + e[1])
        if k == "call":
            return self.apply(self.ev(e[1], env), [self.ev(a, env) for a in e[2]])
        if k == "not":
            return not self.ev(e[1], env)
        if k == "and":
            return self.ev(e[1], env) and self.ev(e[2], env)
        if k == "or":
            return self.ev(e[1], env) or self.ev(e[2], env)
        if k == "implies":
            return (not self.ev(e[1], env)) or self.ev(e[2], env)
        if k in ("iff", "="):
            return self.ev(e[1], env) == self.ev(e[2], env)
        if k == "!=":
            return self.ev(e[1], env) != self.ev(e[2], env)
        if k == "if":
            return self.ev(e[2], env) if self.ev(e[1], env) else self.ev(e[3], env)
        doms = [self.dom(ty) for _, ty in e[1]]
        envs = (dict(env, **dict(zip([n for n, _ in e[1]], vals))) for vals in itertools.product(*doms))
        if k == "forall":
            return all(self.ev(e[2], x) for x in envs)
        if k == "exists":
            return any(self.ev(e[2], x) for x in envs)
        if k == "function":
            names = [n for n, _ in e[1]]
            return ("table", {vals: self.ev(e[2], dict(env, **dict(zip(names, vals))))
                              for vals in itertools.product(*doms)})
        raise Unread(k)


def free_names(e, bound=()):
    k = e[0]
    if k == "name":
        return set() if e[1] in bound else {e[1]}
    if k == "lit":
        return set()
    if k == "call":
        return free_names(e[1], bound).union(*[free_names(a, bound) for a in e[2]])
    if k in ("forall", "exists", "function"):
        return free_names(e[2], tuple(bound) + tuple(n for n, _ in e[1]))
    return set().union(*[free_names(x, bound) for x in e[1:]])


WITNESS = re.compile(r"^let (\w+): (.+?) satisfy \{(.*)\}$", re.S)


def alias_shape(steps, model):
    """Does some step say function(..) { body }(args) where the instance can be true while the
    generalization is not? Such a step makes the checker accept the generalization too, a known
    finding. True also when a step cannot be read."""
    types = {}
    for st in steps:
        text = st["c"].strip()
        m = WITNESS.match(text)
        try:
            if m:
                types[m.group(1)] = Parser(m.group(2)).type()
            if "function" not in text and not m:
                continue
            if m:
                # The condition of a witness, instantiated, is inserted as a generalization too.
                e, cond = None, parse(m.group(3))
                if "function" in text:
                    return True
                continue
            if not text.startswith("function"):
                return True
            e = parse(text)
            if e[0] != "call" or e[1][0] != "function":
                return True
            unknown = sorted(n for n in free_names(e) if n not in model.names)
            if any(n not in types for n in unknown):
                return True
            for vals in itertools.product(*[model.dom(types[n]) for n in unknown]):
                env = dict(zip(unknown, vals))
                if model.ev(e, env) is True and not model.ev(("forall", e[1][1], e[1][2]), env):
                    return True
        except (Unread, KeyError, TypeError, IndexError):
            return True
    return False
