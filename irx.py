#!/usr/bin/env python3
"""Small symbolic executor for LLVM IR functions over integers (multi-index handler).

usage: irx.py FILE.ll LOG LIMIT Z3MS D OP K     (called by check.py like an instrumented harness)
The IR is compiled from /repo's header on every run. Integer arguments are Z3 integers; every add, sub and mul is shown not to leave
its machine type by interval arithmetic; branches fork when the solver finds both sides feasible.
"""
import json
import re
import sys
import time
import z3


class Unsupported(Exception):
    pass


class Sym:
    """integer term with an interval"""
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o, self.off = o, off


class Packed:
    """several 32-bit cells in one wider value"""
    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = cells


def ex(v):
    return z3.IntVal(v) if isinstance(v, int) else v.e


def rng(v):
    return (v, v) if isinstance(v, int) else (v.lo, v.hi)


# ---------------------------------------------------------------- parsing
class Module:
    def __init__(self, text):
        self.types, self.funcs, self.globals = {}, {}, {}
        cur = None
        for line in text.splitlines():
            s = line.split(";")[0].rstrip() if not line.startswith("@") else line
            if not s.strip() or s.startswith(("!", "source_filename", "target", "attributes")):
                if cur is not None and re.match(r"^\d+:|^[\w.\"$-]+:", line):
                    pass
                else:
                    continue
            m = re.match(r"^(%\S.*?) = type (.*)$", s)
            if m and cur is None:
                self.types[m.group(1)] = m.group(2)
                continue
            m = re.match(r"^define .*?@(\"[^\"]+\"|[\w.$]+)\((.*)\)[^()]*\{$", s)
            if m:
                cur = {"name": m.group(1).strip('"'), "args": [], "blocks": {}, "order": []}
                for a in split(m.group(2)):
                    t = a.split()
                    if t and t[0] != "...":
                        cur["args"].append(t[-1])
                self.funcs[cur["name"]] = cur
                blk = None
                continue
            if cur is None:
                continue
            if s == "}":
                cur = None
                continue
            m = re.match(r"^(\d+|[\w.$-]+|\"[^\"]+\"):", line)
            if m:
                blk = "%" + m.group(1)
                cur["blocks"][blk] = []
                cur["order"].append(blk)
                continue
            if blk is None:
                blk = "%" + str(len(cur["args"]))
                cur["entry"] = blk
                cur["blocks"][blk] = []
                cur["order"].append(blk)
            s = re.sub(r", ![\w.]+ !\d+", "", s.strip())
            s = re.sub(r", align \d+", "", s)
            cur["blocks"][blk].append(s)
        for f in self.funcs.values():
            f.setdefault("entry", f["order"][0] if f["order"] else None)

    def size(self, t):
        t = t.strip()
        m = re.match(r"^i(\d+)$", t)
        if m:
            return max(1, (int(m.group(1)) + 7) // 8)
        if t == "ptr":
            return 8
        m = re.match(r"^\[(\d+) x (.*)\]$", t)
        if m:
            return int(m.group(1)) * self.size(m.group(2))
        if t.startswith("{"):
            off, al = 0, 1
            for f in split(t[1:-1]):
                a = self.align(f)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.size(f)
            return (off + al - 1) // al * al
        if t in self.types:
            return self.size(self.types[t])
        raise Unsupported("type " + t)

    def align(self, t):
        t = t.strip()
        if t in self.types:
            return self.align(self.types[t])
        if t.startswith("["):
            return self.align(re.match(r"^\[(\d+) x (.*)\]$", t).group(2))
        if t.startswith("{"):
            return max([self.align(f) for f in split(t[1:-1])] or [1])
        return self.size(t)

    def field(self, t, i):
        t = t.strip()
        if t in self.types:
            return self.field(self.types[t], i)
        m = re.match(r"^\[(\d+) x (.*)\]$", t)
        if m:
            return i * self.size(m.group(2)), m.group(2)
        if t.startswith("{"):
            off = 0
            for k, f in enumerate(split(t[1:-1])):
                a = self.align(f)
                off = (off + a - 1) // a * a
                if k == i:
                    return off, f
                off += self.size(f)
        raise Unsupported("field of " + t)


def split(s):
    out, d, cur = [], 0, ""
    q = False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            if ch in ")]}>":
                d -= 1
            if ch == "," and d == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


ATTR = set("noundef nonnull nocapture readonly writeonly readnone signext zeroext noalias immarg dead_on_unwind writable returned".split())


class Crash(Exception):
    pass


class State:
    __slots__ = ("mem", "pc", "nobj")

    def __init__(self, mem, pc, nobj):
        self.mem, self.pc, self.nobj = mem, pc, nobj

    def copy(self):
        return State(dict(self.mem), list(self.pc), self.nobj)


class Exec:
    def __init__(self, mod, base, z3ms, deadline):
        self.m, self.z3ms, self.deadline = mod, z3ms, deadline
        self.base = base
        self.q = self.qt = self.paths = self.forks = self.unsat = self.sat = self.unknown = 0
        self.called = set()
        self.steps = 0
        self.crashes = []

    def solve(self, cs):
        s = z3.Solver()
        s.set("timeout", self.z3ms)
        s.add(self.base)
        s.add(cs)
        t = time.time()
        r = s.check()
        self.qt += time.time() - t
        self.q += 1
        if r == z3.sat:
            self.sat += 1
            return "sat", s.model()
        if r == z3.unsat:
            self.unsat += 1
            return "unsat", None
        self.unknown += 1
        return "unknown", None

    # values
    def val(self, env, t, v):
        v = v.strip()
        if v.startswith(("%", "@")):
            if v in env:
                return env[v]
            raise Unsupported("value " + v)
        if v == "true":
            return 1
        if v == "false" or v in ("null", "zeroinitializer", "poison", "undef"):
            return 0
        if re.match(r"^-?\d+$", v):
            return int(v)
        raise Unsupported("operand " + v)

    def tv(self, env, s):
        """'i32 noundef %3' -> (type, value)"""
        p = s.split()
        t = p[0]
        if t[0] in "[{%" and not t.startswith("%") or (t.startswith("%") and len(p) > 1 and t.startswith('%"')):
            k = s.rindex(" ")
            return s[:k], self.val(env, None, s[k + 1:])
        return t, self.val(env, t, p[-1])

    @staticmethod
    def bits(t):
        m = re.match(r"^i(\d+)$", t)
        if not m:
            raise Unsupported("type " + t)
        return int(m.group(1))

    @staticmethod
    def signed(v, n):
        v &= (1 << n) - 1
        return v - (1 << n) if n > 1 and v >> (n - 1) else v

    def fit(self, e, lo, hi, n):
        if lo == hi:
            return lo
        if n < 64 and (lo < -(1 << (n - 1)) or hi >= (1 << (n - 1))) and n > 1:
            raise Unsupported("possible overflow")
        return Sym(e, lo, hi)

    def arith(self, op, t, a, b):
        n = self.bits(t)
        if isinstance(a, Packed) or isinstance(b, Packed):
            raise Unsupported("arithmetic on packed value")
        if z3.is_bool(a) or z3.is_bool(b):
            if n != 1:
                raise Unsupported("bool arithmetic")
            A = a if z3.is_bool(a) else z3.BoolVal(bool(a & 1))
            B = b if z3.is_bool(b) else z3.BoolVal(bool(b & 1))
            r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}.get(op)
            if not r:
                raise Unsupported(op + " i1")
            return z3.simplify(r(A, B))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported("pointer arithmetic")
        if isinstance(a, int) and isinstance(b, int):
            u, w = a & ((1 << n) - 1), b & ((1 << n) - 1)
            if op in ("sdiv", "srem", "udiv", "urem") and b == 0:
                raise Crash("division by zero")
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: u & w, "or": lambda: u | w, "xor": lambda: u ^ w,
                 "shl": lambda: u << w, "lshr": lambda: u >> w, "ashr": lambda: a >> w, "udiv": lambda: u // w, "urem": lambda: u % w,
                 "sdiv": lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1), "srem": lambda: (abs(a) % abs(b)) * (1 if a >= 0 else -1)}[op]()
            return self.signed(r, n)
        (al, ah), (bl, bh) = rng(a), rng(b)
        if op == "add":
            return self.fit(ex(a) + ex(b), al + bl, ah + bh, n)
        if op == "sub":
            return self.fit(ex(a) - ex(b), al - bh, ah - bl, n)
        if op == "mul":
            ps = [al * bl, al * bh, ah * bl, ah * bh]
            return self.fit(ex(a) * ex(b), min(ps), max(ps), n)
        if op == "shl" and isinstance(b, int):
            return self.fit(ex(a) * (1 << b), al << b, ah << b, n)
        if op in ("sdiv", "udiv", "srem", "urem") and al >= 0 and bl > 0:
            return self.fit(ex(a) / ex(b), al // bh, ah // bl, n) if op[1:] == "div" else self.fit(ex(a) % ex(b), 0, min(ah, bh - 1), n)
        if op == "and":
            if isinstance(a, int):
                a, b, al, ah = b, a, bl, bh
            if isinstance(b, int):
                b &= (1 << n) - 1
                if al >= 0 and (b + 1) & b == 0 and ah <= b:
                    return a
                if (b + 1) & b == 0 and al >= 0:
                    return self.fit(ex(a) % (b + 1), 0, b, n)
        if op == "xor" and -1 in (a if isinstance(a, int) else 0, b if isinstance(b, int) else 0):
            y = b if isinstance(a, int) else a
            return self.fit(-1 - y.e, -1 - y.hi, -1 - y.lo, n)
        if op == "or" and (a == 0 or b == 0):
            return b if isinstance(a, int) and a == 0 else a
        if op == "lshr" and isinstance(b, int) and al >= 0:
            return self.fit(ex(a) / (1 << b), al >> b, ah >> b, n)
        raise Unsupported(op + " symbolic")

    def icmp(self, pred, t, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                a, b = a.off, b.off
            elif pred in ("eq", "ne"):
                return int(pred == "ne")
            else:
                raise Unsupported("pointer comparison")
        if isinstance(a, Packed) or isinstance(b, Packed):
            raise Unsupported("comparison of packed value")
        if z3.is_bool(a) or z3.is_bool(b):
            A = a if z3.is_bool(a) else z3.BoolVal(bool(a & 1))
            B = b if z3.is_bool(b) else z3.BoolVal(bool(b & 1))
            if pred == "eq":
                return A == B
            if pred == "ne":
                return A != B
            raise Unsupported("icmp i1")
        (al, ah), (bl, bh) = rng(a), rng(b)
        n = 64 if t == "ptr" else self.bits(t)
        if pred[0] == "u":
            if isinstance(a, int) and isinstance(b, int):
                a, b = a & ((1 << n) - 1), b & ((1 << n) - 1)
            elif al < 0 or bl < 0:
                raise Unsupported("unsigned comparison of possibly negative value")
            al, ah, bl, bh = *rng(a), *rng(b)
        k = pred if pred in ("eq", "ne") else pred[1:]
        if isinstance(a, int) and isinstance(b, int):
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k])
        x, y = ex(a), ex(b)
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[k]

    # memory: (object, offset) -> (size, value)
    def load(self, st, t, p):
        n = self.m.size(t)
        if not isinstance(p, Ptr):
            raise Crash("null or wild pointer")
        return self.loadn(st, p, n)

    def loadn(self, st, p, n):
        c = st.mem.get((p.o, p.off))
        if c and c[0] == n:
            return c[1]
        if c and c[0] < n:
            cells, o = [], p.off
            while o < p.off + n:
                d = st.mem.get((p.o, o))
                if not d:
                    raise Unsupported("uninitialised read")
                cells.append((d[0], d[1]))
                o += d[0]
            if all(isinstance(x, int) for _, x in cells):
                v, sh = 0, 0
                for w, x in cells:
                    v |= (x & ((1 << 8 * w) - 1)) << sh
                    sh += 8 * w
                return self.signed(v, 8 * n)
            return Packed(cells)
        if c is None:
            # inside a wider cell?
            for w in (8, 4, 2):
                o = p.off - p.off % w
                d = st.mem.get((p.o, o))
                if d and d[0] > p.off - o and isinstance(d[1], int):
                    return self.signed((d[1] & ((1 << 8 * d[0]) - 1)) >> (8 * (p.off - o)), 8 * n)
        if c and c[0] > n and isinstance(c[1], int):
            return self.signed(c[1], 8 * n)
        raise Unsupported("read of uninitialised or split memory")

    def store(self, st, p, n, v):
        if not isinstance(p, Ptr):
            raise Crash("null or wild pointer")
        size = st.mem.get((p.o, "size"), 0)
        if p.off < 0 or p.off + n > size:
            raise Crash("write outside an object")
        for o in list(range(p.off - 7, p.off)):
            d = st.mem.get((p.o, o))
            if d and o + d[0] > p.off:
                if isinstance(d[1], int):
                    for b in range(d[0]):
                        st.mem[(p.o, o + b)] = (1, self.signed(d[1] >> (8 * b), 8))
                else:
                    raise Unsupported("partial overwrite")
        c = st.mem.get((p.o, p.off))
        if c and c[0] > n:
            if not isinstance(c[1], int):
                raise Unsupported("partial overwrite")
            for b in range(n, c[0]):
                st.mem[(p.o, p.off + b)] = (1, self.signed(c[1] >> (8 * b), 8))
        for o in range(p.off + 1, p.off + n):
            st.mem.pop((p.o, o), None)
        if isinstance(v, Packed):
            o = p.off
            for w, x in v.cells:
                st.mem[(p.o, o)] = (w, x)
                o += w
        else:
            st.mem[(p.o, p.off)] = (n, v)

    def alloc(self, st, size):
        st.nobj += 1
        st.mem[(st.nobj, "size")] = size
        return Ptr(st.nobj, 0)

    def concrete(self, st, v):
        """all feasible values of a symbolic integer: yields (state, int)"""
        if isinstance(v, int):
            yield st, v
            return
        if v.hi - v.lo > 64:
            raise Unsupported("symbolic address or size")
        for k in range(v.lo, v.hi + 1):
            r, _ = self.solve(st.pc + [v.e == k])
            if r != "unsat":
                s2 = st.copy()
                s2.pc.append(v.e == k)
                yield s2, k

    def branch(self, st, c):
        """yields (state, bool)"""
        if isinstance(c, int):
            yield st, bool(c & 1)
            return
        if isinstance(c, Sym):
            c = c.e != 0
        c = z3.simplify(c)
        if z3.is_true(c):
            yield st, True
            return
        if z3.is_false(c):
            yield st, False
            return
        a, _ = self.solve(st.pc + [c])
        b, _ = self.solve(st.pc + [z3.Not(c)])
        if a != "unsat" and b != "unsat":
            self.forks += 1
        if a != "unsat":
            s2 = st.copy()
            if b != "unsat":
                s2.pc.append(c)
            yield s2, True
        if b != "unsat":
            s2 = st.copy()
            if a != "unsat":
                s2.pc.append(z3.Not(c))
            yield s2, False

    # execution: generator of (state, return value)
    def call(self, name, args, st, depth=0):
        f = self.m.funcs[name]
        self.called.add(name)
        if depth > 40:
            raise Unsupported("recursion")
        env = dict(zip(f["args"], args))
        work = [(st, env, f["entry"], None, 0)]
        while work:
            st, env, blk, prev, ip = work.pop()
            ins = f["blocks"][blk]
            while True:
                self.steps += 1
                if self.steps % 256 == 0 and time.time() > self.deadline:
                    raise TimeoutError()
                if ip == 0:   # phis in parallel
                    new = {}
                    while ip < len(ins) and re.match(r"^%\S+ = phi ", ins[ip]):
                        m = re.match(r"^(%\S+) = phi (.+?) (\[.*)$", ins[ip])
                        hit = False
                        for x in re.finditer(r"\[ (.+?), (%[^ ]+) \]", m.group(3)):
                            if x.group(2) == prev:
                                new[m.group(1)] = self.val(env, m.group(2), x.group(1))
                                hit = True
                        if not hit:
                            raise Unsupported("phi")
                        ip += 1
                    env.update(new)
                s = ins[ip]
                ip += 1
                if s.startswith("br label "):
                    prev, blk, ip = blk, s[9:].split(",")[0].strip(), 0
                    ins = f["blocks"][blk]
                    continue
                m = re.match(r"^br i1 (\S+), label (\S+), label (\S+)", s)
                if m:
                    c = self.val(env, "i1", m.group(1))
                    outs = list(self.branch(st, c))
                    if not outs:
                        break
                    for s2, tr in outs[1:]:
                        work.append((s2, dict(env), (m.group(2) if tr else m.group(3)).rstrip(","), blk, 0))
                    st, tr = outs[0]
                    prev, blk, ip = blk, (m.group(2) if tr else m.group(3)).rstrip(","), 0
                    ins = f["blocks"][blk]
                    continue
                if s.startswith("ret "):
                    yield st, (None if s == "ret void" else self.tv(env, s[4:])[1])
                    break
                if s.startswith("unreachable"):
                    self.crashes.append((st, "undefined behaviour"))
                    break
                m = re.match(r"^(?:(%\S+) = )?(?:tail |musttail |notail )?call (.*?)@(\"[^\"]+\"|[\w.$]+)\((.*)\)", s)
                if m:
                    stop = False
                    outs = []
                    for s2, r in self.docall(m.group(3).strip('"'), [a for a in split(m.group(4))], env, st, depth):
                        outs.append((s2, r))
                    if not outs:
                        break
                    for s2, r in outs[1:]:
                        e2 = dict(env)
                        if m.group(1):
                            e2[m.group(1)] = r
                        work.append((s2, e2, blk, prev, ip))
                    st, r = outs[0]
                    if m.group(1):
                        env[m.group(1)] = r
                    if ip == 0:
                        ip = 1
                    continue
                m = re.match(r"^store (.+), ptr (\S+)$", s)
                if m:
                    t, v = self.tv(env, m.group(1))
                    self.store(st, self.val(env, "ptr", m.group(2)), self.m.size(t), v)
                    continue
                m = re.match(r"^(%\S+) = (\S+) (.*)$", s)
                if not m:
                    raise Unsupported(s)
                d, op, rest = m.groups()
                if op == "alloca":
                    env[d] = self.alloc(st, self.m.size(split(rest)[0]))
                elif op == "load":
                    t, p = split(rest)
                    env[d] = self.load(st, t, self.val(env, "ptr", p.split()[-1]))
                elif op == "getelementptr":
                    ps = split(re.sub(r"^inbounds |^nuw |^nusw ", "", rest))
                    base = self.val(env, "ptr", ps[1].split()[-1])
                    if not isinstance(base, Ptr):
                        raise Crash("null pointer")
                    t, off = ps[0], base.off
                    idx = [self.val(env, x.split()[0], x.split()[-1]) for x in ps[2:]]
                    k = next((i for i, x in enumerate(idx) if not isinstance(x, int)), None)
                    if k is not None:
                        name = ps[2 + k].split()[-1]
                        outs = list(self.concrete(st, idx[k]))
                        for s2, v in outs[1:]:
                            e2 = dict(env)
                            e2[name] = v
                            work.append((s2, e2, blk, prev, ip - 1 if ip > 1 else -1))
                        if not outs:
                            break
                        st, v = outs[0]
                        env[name] = v
                        ip -= 1
                        if ip == 0:
                            raise Unsupported("fork at block start")
                        continue
                    off += idx[0] * self.m.size(t)
                    for i in idx[1:]:
                        o, t = self.m.field(t, i)
                        off += o
                    env[d] = Ptr(base.o, off)
                elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "srem", "udiv", "urem"):
                    rest = re.sub(r"^(nuw |nsw |exact |disjoint )+", "", rest)
                    a, b = split(rest)
                    t, a = a.split(" ", 1)
                    env[d] = self.arith(op, t, self.val(env, t, a), self.val(env, t, b))
                elif op == "icmp":
                    pred, t, ab = rest.split(" ", 2)
                    a, b = split(ab)
                    env[d] = self.icmp(pred, t, self.val(env, t, a), self.val(env, t, b))
                elif op in ("sext", "zext", "trunc", "freeze", "bitcast"):
                    if op == "freeze":
                        env[d] = self.val(env, None, rest.split()[-1])
                        continue
                    m = re.match(r"^(?:nneg |nuw |nsw )*(\S+) (\S+) to (\S+)$", rest)
                    v = self.val(env, m.group(1), m.group(2))
                    a, b = self.bits(m.group(1)), self.bits(m.group(3))
                    if z3.is_bool(v):
                        if op == "zext":
                            v = Sym(z3.If(v, z3.IntVal(1), z3.IntVal(0)), 0, 1)
                        else:
                            raise Unsupported(op + " bool")
                    elif isinstance(v, Packed):
                        if op == "trunc" and v.cells[0][0] * 8 == b:
                            v = v.cells[0][1]
                        else:
                            raise Unsupported(op + " packed")
                    elif isinstance(v, int):
                        v = self.signed(v & ((1 << a) - 1), b) if op == "zext" else (self.signed(v, b) if op == "trunc" else (-(v & 1) if a == 1 else v))
                    elif isinstance(v, Sym):
                        if op == "zext" and v.lo < 0:
                            raise Unsupported("zext of possibly negative value")
                        if op == "trunc" and b == 1:
                            v = (v.e % 2) == 1
                        elif op == "trunc" and (v.lo < -(1 << (b - 1)) or v.hi >= 1 << (b - 1)):
                            raise Unsupported("trunc")
                    env[d] = v
                elif op == "select":
                    c, a, b = split(rest)
                    c = self.val(env, "i1", c.split()[-1])
                    (t, x), (_, y) = self.tv(env, a), self.tv(env, b)
                    if isinstance(c, int):
                        env[d] = x if c & 1 else y
                    elif t == "i1":
                        X = x if z3.is_bool(x) else z3.BoolVal(bool(x & 1))
                        Y = y if z3.is_bool(y) else z3.BoolVal(bool(y & 1))
                        env[d] = z3.simplify(z3.If(c, X, Y))
                    elif isinstance(x, (int, Sym)) and isinstance(y, (int, Sym)):
                        env[d] = Sym(z3.If(c, ex(x), ex(y)), min(rng(x)[0], rng(y)[0]), max(rng(x)[1], rng(y)[1]))
                    else:
                        raise Unsupported("select")
                else:
                    raise Unsupported(s)

    def docall(self, name, argtexts, env, st, depth):
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental", "llvm.assume", "_ZdlPv", "_ZdaPv", "llvm.invariant")):
            yield st, None
            return
        args = []
        for a in argtexts:
            p = [x for x in a.split() if x not in ATTR and not re.match(r"^(align|dereferenceable.*|\d+\)?|sret.*|captures.*)$", x) or x == a.split()[-1]]
            args.append(self.val(env, p[0], a.split()[-1]))
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            d, s, n = args[:3]
            if not isinstance(n, int):
                raise Unsupported("symbolic copy size")
            cells, o = [], 0
            while o < n:
                c = st.mem.get((s.o, s.off + o))
                if c is None:
                    o += 1
                    continue
                cells.append((o, c))
                o += c[0]
            for o, (w, v) in cells:
                self.store(st, Ptr(d.o, d.off + o), w, v)
            yield st, None
            return
        if name.startswith("llvm.memset"):
            d, v, n = args[:3]
            if not isinstance(n, int) or v != 0:
                raise Unsupported("memset")
            o = 0
            while o < n:
                w = 4 if n - o >= 4 else 1
                self.store(st, Ptr(d.o, d.off + o), w, 0)
                o += w
            yield st, None
            return
        if name in ("_Znwm", "_Znam"):
            if not isinstance(args[0], int):
                raise Unsupported("symbolic allocation")
            yield st, self.alloc(st, args[0])
            return
        m = re.match(r"^llvm\.(smax|smin|umax|umin|abs)\.", name)
        if m:
            a = args[0]
            if m.group(1) == "abs":
                b = 0 - a if isinstance(a, int) else Sym(-a.e, -a.hi, -a.lo)
                k = "smax"
            else:
                b, k = args[1], m.group(1)
            if k[0] == "u" and (rng(a)[0] < 0 or rng(b)[0] < 0):
                raise Unsupported(name)
            if isinstance(a, int) and isinstance(b, int):
                yield st, (max if k.endswith("max") else min)(a, b)
                return
            (al, ah), (bl, bh) = rng(a), rng(b)
            if k.endswith("max"):
                yield st, Sym(z3.If(ex(a) >= ex(b), ex(a), ex(b)), max(al, bl), max(ah, bh))
            else:
                yield st, Sym(z3.If(ex(a) <= ex(b), ex(a), ex(b)), min(al, bl), min(ah, bh))
            return
        if name in self.m.funcs and self.m.funcs[name]["blocks"]:
            yield from self.call(name, args, st, depth + 1)
            return
        if "assert_fail" in name or "throw" in name or "terminate" in name or name in ("abort", "llvm.trap"):
            self.crashes.append((st, "failing assertion or exception in " + name))
            return
        raise Unsupported("call " + name)


# ---------------------------------------------------------------- the properties
OPS = ["start", "at", "inc", "post", "dec", "plus", "minus", "set", "diff", "flat", "flatof", "length", "extract"]


def flat(ln, c):
    e, w = z3.IntVal(0), z3.IntVal(1)
    for l, x in zip(ln, c):
        e, w = e + x * w, w * l
    return e


def odo(ln, c, up):
    out, carry = [], z3.BoolVal(True)
    for l, x in zip(ln, c):
        end = x == (l - 1 if up else 0)
        out.append(z3.simplify(z3.If(carry, z3.If(end, z3.IntVal(0) if up else l - 1, x + 1 if up else x - 1), x)))
        carry = z3.And(carry, end)
    return out


def main():
    ll, log, lim, z3ms = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4])
    D, op, K, L = (int(x) for x in sys.argv[5:9])
    t0 = time.time()
    name = OPS[op]
    mod = Module(open(ll).read())
    ev = []
    ln = [z3.Int("len%d" % i) for i in range(D)]
    cu = [z3.Int("cur%d" % i) for i in range(D)]
    ot = [z3.Int("oth%d" % i) for i in range(D)]
    base = []
    for i in range(D):
        base += [ln[i] >= 1, ln[i] <= L, cu[i] >= 0, cu[i] < ln[i], ot[i] >= 0, ot[i] < ln[i]]
    for i, v in enumerate(sys.argv[9:9 + D]):
        base.append(ln[i] == int(v))  # lengths of this configuration are fixed
    k = z3.Int("k")
    x = Exec(mod, base, z3ms, t0 + lim)
    st = State({}, [], 0)

    def arr(vs, lo, hi):
        p = x.alloc(st, 4 * len(vs))
        for i, v in enumerate(vs):
            x.store(st, Ptr(p.o, 4 * i), 4, Sym(v, lo, hi))
        return p
    A = arr(ln, 1, L)
    B = arr(cu, 0, L - 1)
    out = x.alloc(st, 8 * D)
    args = [A, B]
    if name == "start":
        args = [A, out]
    elif name in ("at", "inc", "post", "dec", "diff"):
        args += [out]
    elif name in ("plus", "minus"):
        args += [K, out]
    elif name == "set":
        x.base += [k >= 0, k < prod(ln)]
        args += [Sym(k, 0, L ** D - 1), out]
    elif name == "flatof":
        args += [arr(ot, 0, L - 1)]
    elif name == "extract":
        args += [K]
    res = dict(kind="summary", paths=0, pruned=0, forks=0, obligations=0, trivial=0, z3q=0, z3sat=0, z3unsat=0, z3unknown=0, quick=0, viol=0, undecided=0, witness=0,
               crashes=0, unsup=0, timeouts=0, values=0, z3time=0, cfg=[D, op, K, L], labels={})

    def bad(label, model, kind="check"):
        res["viol"] += 1
        names = ln + cu + ot + [k]
        mv = {str(v): str(model.eval(v, model_completion=True)) for v in names}
        ev.append(dict(kind=kind, label=label, models=[mv], choices={}, cfg=[D, op, K, L]))

    def check(s, goal, label):
        res["obligations"] += 1
        res["labels"][label] = res["labels"].get(label, 0) + 1
        g = z3.simplify(goal, som=True)
        if z3.is_true(g):
            res["trivial"] += 1
            return
        r, m = x.solve(s.pc + [z3.Not(goal)])
        if r == "sat":
            bad(label, m)
        elif r == "unknown":
            res["undecided"] += 1
    try:
        for s, r in x.call("%s_%d" % (name, D), args, st):
            res["paths"] += 1
            rr, _ = x.solve(s.pc)
            if rr == "unsat":
                continue
            res["witness"] += 1

            def got(i):
                return ex(x.loadn(s, Ptr(out.o, 4 * i), 4))
            if name in ("at", "inc", "post", "dec", "plus", "minus", "diff", "start"):
                if name in ("inc", "post"):
                    want = odo(ln, cu, True)
                elif name == "dec":
                    want = odo(ln, cu, False)
                elif name == "diff":
                    want = [l - c - 1 for l, c in zip(ln, cu)]
                elif name == "start":
                    want = [z3.IntVal(0)] * D
                elif name == "at":
                    want = cu
                else:
                    want = cu
                    for _ in range(K):
                        want = odo(ln, want, name == "plus")
                for i in range(D):
                    check(s, got(i) == want[i], name + ": indices")
                if name == "post":
                    for i in range(D):
                        check(s, got(D + i) == cu[i], "post: returned value")
            elif name == "set":
                check(s, flat(ln, [got(i) for i in range(D)]) == k, "set: flat index")
                for i in range(D):
                    check(s, z3.And(got(i) >= 0, got(i) < ln[i]), "set: indices in range")
            else:
                if name == "flat":
                    w = flat(ln, cu)
                elif name == "flatof":
                    w = flat(ln, ot)
                elif name == "length":
                    w = prod(ln)
                else:
                    w = flat([ln[i] for i in range(D) if i != K], [cu[i] for i in range(D) if i != K])
                check(s, ex(r) == w, name + ": value")
        for s, what in x.crashes:
            rr, m = x.solve(s.pc)
            if rr == "sat":
                bad(name + ": " + what, m, "crash")
    except Unsupported as e:
        res["unsup"] += 1
        res["undecided"] += 1
        ev.append(dict(kind="unsupported", note=str(e)))
    except Crash as e:
        res["crashes"] += 1
        rr, m = x.solve([])
        bad(name + ": " + str(e), m, "crash")
    except TimeoutError:
        res["timeouts"] += 1
        res["undecided"] += 1
    res.update(forks=x.forks, z3q=x.q, z3sat=x.sat, z3unsat=x.unsat, z3unknown=x.unknown, z3time=x.qt, functions=sorted(x.called))
    with open(log, "w") as f:
        for e in ev:
            f.write(json.dumps(e) + "\n")
        f.write(json.dumps(res) + "\n")


def prod(ln):
    w = z3.IntVal(1)
    for l in ln:
        w = w * l
    return w


if __name__ == "__main__":
    main()
