"""Depth-first exploration of the feasible paths of a contract by deterministic replay."""
from .terms import *
from . import terms as TT
from . import prover


class Paths:
    def __init__(self, max_paths=4000):
        self.script = []        # decisions to replay: list of [value, other_feasible]
        self.pos = 0
        self.hyps = []
        self.max_paths = max_paths
        self.count = 0
        self._known = {}

    # ---- one run ----
    def start(self):
        self.pos = 0
        self.hyps = []
        self.count += 1
        if self.count > self.max_paths:
            raise Unsupported("too many paths")

    def next(self):
        """advance the script to the next unexplored path; False when done"""
        self.script = self.script[:self.pos]
        while self.script:
            v, alts = self.script.pop()
            if alts:
                self.script.append([alts[0], alts[1:]])
                return True
        return False

    def assume(self, h):
        h = boolt(h)
        if h is TRUE:
            return
        self.hyps += prover.conjuncts(h)

    def _key(self, c):
        return (c.id, tuple(h.id for h in self.hyps))

    def known(self, c):
        c = boolt(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        k = self._key(c)
        r = self._known.get(k)
        if r is None:
            r = self._entails(c)
            self._known[k] = r
        return r

    def _entails(self, c):
        s = prover.simplify(c, self.hyps)
        s = canonb(s)
        if s is TRUE:
            return True
        if s is FALSE:
            return False
        if s.op == "and":
            return all(self._entails(a) for a in s.args)
        # only the hypotheses that share symbols (transitively) matter
        st, _ = prover.smt(s, self.relevant(s), ms=1500, depth=1)
        return st == "unsat"

    def relevant(self, goal):
        ids = set(prover.symbols(goal))
        hs = [(h, prover.symbols(h)) for h in self.hyps]
        out = []
        ch = True
        while ch:
            ch = False
            for h, s in hs:
                if h not in out and (s & ids):
                    out.append(h)
                    if not s <= ids:
                        ids |= s
                    ch = True
            hs = [(h, s) for h, s in hs if all(h is not o for o in out)]
        return out

    def decide(self, c):
        c = boolt(c)
        if c is TRUE or c is FALSE:
            return c is TRUE
        cc = canonb(c)
        if cc is TRUE or cc is FALSE:
            return cc is TRUE
        for v in walk(c):
            if v.op == "v" and v.args[0].startswith("#"):
                raise Unsupported("branch on a bound variable")
        if self.known(c):
            return True
        if self.known(lnot(c)):
            return False
        if any(v.op == "v" and v.args[0].startswith("loop$") for v in walk(c)):
            raise Unsupported("branch that depends on the index of a symbolic loop")
        v = self._pick([True, False])
        self.assume(c if v else lnot(c))
        return v

    def choose(self, options):
        return self._pick(list(options))

    def _pick(self, options):
        if self.pos < len(self.script):
            v = self.script[self.pos][0]
        else:
            v = options[0]
            self.script.append([v, options[1:]])
        self.pos += 1
        return v

    def concretise(self, t):
        t = const(t)
        c = canon(t)
        if c.op == "c":
            return c.args[0]
        for h in self.hyps:
            if h.op == "eq":
                a, b = h.args
                if a is t and b.op == "c":
                    return b.args[0]
                if b is t and a.op == "c":
                    return a.args[0]
        if any(v.op == "v" and v.args[0].startswith("loop$") for v in walk(t)):
            raise Unsupported("concrete value of the index of a symbolic loop")
        vals = self._values(t)
        v = self._pick(vals)
        self.assume(mk("eq", (t, const(v)) if t.id < const(v).id else (const(v), t), "B"))
        return Fraction(v)

    def _values(self, t):
        """the finite set of feasible integer values"""
        k = self._key(t)
        r = self._known.get(("vals",) + k)
        if r is not None:
            return r
        if not isint(t):
            # k * integer
            p = poly(t)
            if not (len(p) == 1 and isint(from_poly(p))):
                raise Unsupported("concrete value of a symbolic real: %s" % show(t))
        out = prover.enum_values(t, self.hyps, 40)
        if out is None:
            raise Unsupported("unbounded symbolic integer needed concretely: %s" % show(t))
        self._known[("vals",) + k] = out
        return out
