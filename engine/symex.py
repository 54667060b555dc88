"""Merging symbolic executor for LLVM IR.

A function is executed once over symbolic terms.  Control flow joins are
merged with if-then-else, loops are unrolled until the back edge becomes
infeasible (by folding, or by a solver query past `soft_unroll`), calls are
executed in place.  The result is the final memory, the condition under
which the function returned, the conditions of every abnormal outcome
(panic, hardware trap) and the definedness obligations met on the way.
"""
import heapq
import re
import llparse
import term as T
from llparse import PTR, VOID, size_of, store_size, field_offset


class Unsupported(Exception):
    pass


class Ptr:
    """Guarded set of (condition, object, offset term)."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Ptr(%r)" % (self.alts,)


def mkptr(obj, off):
    if isinstance(off, int):
        off = T.const(off, 64)
    return Ptr(((T.TRUE, obj, off),))


def ptr_eq(a, b):
    return len(a.alts) == len(b.alts) and all(x[0] is y[0] and x[1] == y[1] and x[2] is y[2]
                                              for x, y in zip(a.alts, b.alts))


def merge_ptr(c, a, b):
    if a is b or ptr_eq(a, b):
        return a
    # same single object: merge the offsets
    if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
        return Ptr(((T.TRUE, a.alts[0][1], T.ite(c, a.alts[0][2], b.alts[0][2])),))
    d = {}
    nc = T.not_(c)
    for g, src in ((c, a), (nc, b)):
        for cc, o, off in src.alts:
            k = T.and_(g, cc)
            if k is T.FALSE:
                continue
            if o in d:
                k0, f0 = d[o]
                d[o] = (T.or_(k0, k), T.ite(k, off, f0))
            else:
                d[o] = (k, off)
    return Ptr(tuple((k, o, f) for o, (k, f) in d.items()))


class Undef:
    __slots__ = ("w",)


UNDEF = Undef()


def merge_val(c, a, b):
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, tuple):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not isinstance(a, Ptr):
            a = as_ptr_int(a)
        if not isinstance(b, Ptr):
            b = as_ptr_int(b)
        return merge_ptr(c, a, b)
    return T.ite(c, a, b)


def as_ptr_int(t):
    if not T.isc(t):
        raise Unsupported("merge of pointer and symbolic integer")
    return mkptr(0, t)


class State:
    __slots__ = ("mem", "owned", "regs", "lits")

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.regs = dict(self.regs)
        s.lits = self.lits
        return s


def conj(lits):
    return T.all_(lits)


def common_prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is not y:
            break
        n += 1
    return n


class CFG:
    """Order, loop nest and liveness of a function."""

    def __init__(self, f):
        blocks = f.blocks
        succ = {}
        for b, ins in blocks.items():
            t = ins[-1]
            if t.op == "br":
                s = [t.x]
            elif t.op == "condbr":
                s = list(t.x)
            elif t.op == "switch":
                s = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == "call" and t.x[3]:
                s = [t.x[3]]
            else:
                s = []
            succ[b] = s
        self.succ = succ
        # reverse post order
        seen = set()
        order = []
        st = [(f.entry, iter(succ[f.entry]))]
        seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        # dominators
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == f.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if self.rpo[s] <= self.rpo[b]:
                    if not dom(s, b):
                        raise Unsupported("irreducible control flow in " + f.name)
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl.extend(pred[x])
        self.loops = loops
        hs = sorted(loops, key=lambda h: -len(loops[h]))
        self.nest = {b: tuple(h for h in hs if b in loops[h]) for b in order}
        # liveness
        use = {}
        defs = {}
        phiuse = {b: set() for b in order}

        def regs_of(v, out):
            if v is None:
                return
            k = v[0]
            if k == "r":
                out.add(v[1])
            elif k == "agg":
                for _, e in v[1]:
                    regs_of(e, out)
            elif k == "gep":
                regs_of(v[2], out)
                for _, e in v[3]:
                    regs_of(e, out)
            elif k == "cast":
                regs_of(v[3], out)

        for b in order:
            u = set()
            d = set()
            for i in blocks[b]:
                r = set()
                if i.op == "phi":
                    for v, p in i.a:
                        if p in phiuse:
                            regs_of(v, phiuse[p])
                else:
                    ops = operands(i)
                    for v in ops:
                        regs_of(v, r)
                u |= r - d
                if i.dst:
                    d.add(i.dst)
            use[b] = u
            defs[b] = d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set(phiuse[b])
                for s in succ[b]:
                    o |= live[s]
                n = use[b] | (o - defs[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live


def operands(i):
    op = i.op
    if op in ("bin", "icmp"):
        return list(i.a)
    if op == "cast":
        return [i.a[1]]
    if op in ("load", "freeze", "extractvalue", "condbr", "switch", "ret", "alloca"):
        return [i.a]
    if op == "store":
        return list(i.a)
    if op == "gep":
        return [i.a[0]] + [v for _, v in i.a[1]]
    if op == "select":
        return list(i.a)
    if op == "insertvalue":
        return [i.a[0], i.a[2]]
    if op == "call":
        r = [v for _, v in i.a]
        if i.x[0] is not None:
            r.append(i.x[0])
        return r
    return []


def pow2div(t, depth=6):
    """Largest power of two (exponent) known to divide t."""
    if T.isc(t):
        return 64 if t.p == 0 else (t.p & -t.p).bit_length() - 1
    if depth == 0:
        return 0
    if t.op in ("add", "sub"):
        return min(pow2div(a, depth - 1) for a in t.args)
    if t.op == "mul":
        return sum(pow2div(a, depth - 1) for a in t.args)
    if t.op == "ite":
        return min(pow2div(a, depth - 1) for a in t.args[1:])
    if t.op == "zext":
        return pow2div(t.args[0], depth - 1)
    if t.op == "concat":
        l = pow2div(t.args[1], depth - 1)
        return l if l < t.args[1].w else t.args[1].w + pow2div(t.args[0], depth - 1)
    if t.op == "shl" and T.isc(t.args[1]):
        return t.args[1].p + pow2div(t.args[0], depth - 1)
    return 0


class Outcome:
    def __init__(self, guard, kind, what):
        self.guard = guard
        self.kind = kind        # "panic" | "trap"
        self.what = what


class Exec:
    def __init__(self, mod, soft_unroll=70, hard_unroll=6000, feasible=None):
        self.mod = mod
        self.objsize = {}
        self.objname = {}
        self.nobj = 0
        self.gobj = {}
        self.outcomes = []
        self.ub = []
        self.soft = soft_unroll
        self.hard = hard_unroll
        self.feasible = feasible
        self.encoded = set()
        self.depth = 0
        self.base_mem = {}
        self.steps = 0
        self.max_unroll = {}
        self.queries = 0
        self.models = {}
        self.divs = []

    # ------------------------------------------------------------- objects
    def new_obj(self, size, name=""):
        self.nobj += 1
        self.objsize[self.nobj] = size
        self.objname[self.nobj] = name
        return self.nobj

    def addr(self, o):
        return 0 if o == 0 else o << 24

    def global_ptr(self, st, name):
        if name in self.mod.fns:
            return Ptr(((T.TRUE, ("fn", name), T.const(0, 64)),))
        if name not in self.gobj:
            rest = self.mod.globs.get(name)
            if rest is None:
                raise Unsupported("global " + name)
            m = re.search(r"\b(constant|global)\s+(.*)$", rest)
            if not m or "external" in rest.split(m.group(1))[0]:
                raise Unsupported("external global " + name)
            p = llparse.P(llparse.tokenize(m.group(2)), self.mod)
            t = p.type()
            v = p.value(t)
            o = self.new_obj(size_of(t), name)
            self.gobj[name] = o
            cells = {}
            self.init_cells(st, cells, 0, t, v)
            self.base_mem[o] = cells
        return mkptr(self.gobj[name], 0)

    def init_cells(self, st, cells, off, t, v):
        k = v[0]
        if t[0] == "struct" and k == "agg":
            for i, (et, ev) in enumerate(v[1]):
                self.init_cells(st, cells, off + field_offset(t, i), et, ev)
        elif t[0] == "arr" and k == "agg":
            s = size_of(t[2])
            for i, (et, ev) in enumerate(v[1]):
                self.init_cells(st, cells, off + i * s, et, ev)
        elif k == "s":
            if v[1]:
                cells[off] = (len(v[1]), T.const(int.from_bytes(v[1], "little"), 8 * len(v[1])))
        elif k == "z":
            if size_of(t):
                cells[off] = (size_of(t), T.const(0, 8 * size_of(t)))
        elif k == "u":
            pass
        elif t[0] == "i":
            n = store_size(t)
            cells[off] = (n, T.const(v[1], 8 * n))
        elif t == PTR:
            cells[off] = (8, self.val(st, t, v))
        else:
            raise Unsupported("global initializer %r" % (v,))

    # -------------------------------------------------------------- values
    def val(self, st, t, v):
        k = v[0]
        if k == "r":
            return st.regs[v[1]]
        if k == "c":
            if t == PTR:
                return mkptr(0, v[1])
            return T.const(v[1], t[1])
        if k == "z":
            return self.zero(t)
        if k == "u":
            return self.undef(t)
        if k == "g":
            return self.global_ptr(st, v[1])
        if k == "agg":
            return tuple(self.val(st, et, ev) for et, ev in v[1])
        if k == "gep":
            return self.gep(st, v[1], self.val(st, PTR, v[2]), v[3])
        if k == "cast":
            return self.cast(st, v[1], v[2], self.val(st, v[2], v[3]), v[4], ())
        if k == "s":
            return tuple(T.const(b, 8) for b in v[1])
        if k == "splat":
            e = self.val(st, v[1], v[2])
            return tuple(e for _ in range(t[1]))
        if k == "bin":
            a = self.val(st, v[2], v[3])
            b = self.val(st, v[2], v[4])
            return T.add(a, b) if v[1] == "add" else T.sub(a, b)
        raise Unsupported("value %r" % (v,))

    def zero(self, t):
        if t[0] == "i":
            return T.const(0, t[1])
        if t == PTR:
            return mkptr(0, 0)
        if t[0] in ("arr", "vec"):
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        if t[0] == "struct":
            return tuple(self.zero(e) for e in t[1])
        raise Unsupported("zero of %r" % (t,))

    def undef(self, t):
        if t[0] in ("arr", "vec"):
            return tuple(self.undef(t[2]) for _ in range(t[1]))
        if t[0] == "struct":
            return tuple(self.undef(e) for e in t[1])
        return UNDEF

    def force(self, v, w):
        if v is UNDEF:
            return T.fresh(w)
        if isinstance(v, Ptr):
            return self.ptr_to_int(v)
        return v

    def ptr_to_int(self, p):
        r = None
        for c, o, off in reversed(p.alts):
            if isinstance(o, tuple):
                raise Unsupported("function pointer to integer")
            x = T.add(T.const(self.addr(o), 64), off)
            r = x if r is None else T.ite(c, x, r)
        return r

    def int_to_ptr(self, t):
        if T.isc(t):
            o = t.p >> 24
            if o and o in self.objsize and (t.p & 0xffffff) <= self.objsize[o]:
                return mkptr(o, t.p & 0xffffff)
            return mkptr(0, t)
        if t.op == "ite":
            return merge_ptr(t.args[0], self.int_to_ptr(t.args[1]), self.int_to_ptr(t.args[2]))
        if t.op == "add" and T.isc(t.args[1]):
            o = t.args[1].p >> 24
            if o and o in self.objsize:
                return mkptr(o, T.sub(t, T.const(o << 24, 64)))
        raise Unsupported("integer to pointer of a symbolic value")

    # -------------------------------------------------------------- memory
    def cells(self, st, o):
        c = st.mem.get(o)
        if c is None:
            c = self.base_mem.get(o)
            if c is None:
                raise Unsupported("access to dead or unknown object %r %s" % (o, self.objname.get(o)))
        return c

    def wcells(self, st, o):
        c = self.cells(st, o)
        if o not in st.owned:
            c = dict(c)
            st.mem[o] = c
            st.owned.add(o)
        return c

    @staticmethod
    def find(cells, off):
        """Start of the cell covering byte `off`, or None."""
        if off in cells:
            return off
        for k in range(1, 1025):
            c = cells.get(off - k)
            if c is not None:
                return off - k if c[0] > k else None
            if off - k < 0:
                break
        return None

    def read(self, cells, off, n):
        c = cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        parts = []
        pos = off
        while pos < off + n:
            s = self.find(cells, pos)
            if s is None:
                # undefined byte
                parts.append(T.fresh(8))
                pos += 1
                continue
            cn, v = cells[s]
            if v is UNDEF:
                k = min(cn - (pos - s), off + n - pos)
                parts.append(T.fresh(8 * k))
                pos += k
                continue
            if isinstance(v, Ptr):
                v = self.ptr_to_int(v)
            k = min(cn - (pos - s), off + n - pos)
            parts.append(T.extract(v, 8 * (pos - s), 8 * k))
            pos += k
        r = parts[0]
        for p in parts[1:]:
            r = T.concat(p, r)
        return r

    def write(self, cells, off, n, v):
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        # clear the range, splitting partially covered cells
        s = self.find(cells, off)
        if s is not None and s < off:
            cn, cv = cells[s]
            del cells[s]
            if cv is not UNDEF:
                if isinstance(cv, Ptr):
                    cv = self.ptr_to_int(cv)
                cells[s] = (off - s, T.extract(cv, 0, 8 * (off - s)))
                if s + cn > off + n:
                    cells[off + n] = (s + cn - off - n, T.extract(cv, 8 * (off + n - s), 8 * (s + cn - off - n)))
        pos = off
        if n > 64 and len(cells) < n:
            ks = [k for k in cells if off <= k < off + n]
        else:
            ks = [k for k in range(off, off + n) if k in cells]
        for k in ks:
            cn, cv = cells.pop(k)
            if k + cn > off + n and cv is not UNDEF:
                if isinstance(cv, Ptr):
                    cv = self.ptr_to_int(cv)
                d = off + n - k
                cells[off + n] = (cn - d, T.extract(cv, 8 * d, 8 * (cn - d)))
        cells[off] = (n, v)

    def candidates(self, off, n, size, stride=None):
        lo, hi = off.lo, min(off.hi, size - n)
        step = 1 << min(pow2div(off), 12)
        lo = (lo + step - 1) // step * step
        return list(range(lo, hi + 1, step))

    def check_access(self, st, c, o, off, n, what):
        if o == 0 or isinstance(o, tuple):
            self.add_ub(st, c, "invalid pointer " + what)
            return False
        size = self.objsize[o]
        if T.isc(off):
            if off.p + n > size:
                self.add_ub(st, c, "out of bounds " + what)
                return False
            return True
        if n > size:
            self.add_ub(st, c, "out of bounds " + what)
            return False
        if off.hi + n > size:
            self.add_ub(st, T.and_(c, T.ugt(off, T.const(size - n, 64))), "out of bounds " + what)
        return True

    def load_bytes(self, st, p, n, what="load"):
        """Value of n bytes at p (Term, or Ptr/UNDEF when stored as such)."""
        res = None
        for c, o, off in reversed(p.alts):
            if not self.check_access(st, c, o, off, n, what):
                continue
            cells = self.cells(st, o)
            if T.isc(off):
                v = self.read(cells, off.p, n)
            else:
                v = None
                for k in self.candidates(off, n, self.objsize[o]):
                    x = self.read(cells, k, n)
                    v = x if v is None else merge_val(T.eq(off, T.const(k, 64)), x, v)
                if v is None:
                    continue
            res = v if res is None else merge_val(c, v, res)
        if res is None:
            return UNDEF
        return res

    def store_bytes(self, st, p, n, v, what="store"):
        single = len(p.alts) == 1
        for c, o, off in p.alts:
            if not self.check_access(st, c, o, off, n, what):
                continue
            cells = self.wcells(st, o)
            if T.isc(off):
                if single:
                    self.write(cells, off.p, n, v)
                else:
                    self.write(cells, off.p, n, merge_val(c, v, self.read(cells, off.p, n)))
            else:
                for k in self.candidates(off, n, self.objsize[o]):
                    g = T.eq(off, T.const(k, 64))
                    if not single:
                        g = T.and_(g, c)
                    if g is T.FALSE:
                        continue
                    self.write(cells, k, n, merge_val(g, v, self.read(cells, k, n)))

    def load(self, st, t, p):
        if t[0] == "i":
            n = store_size(t)
            v = self.load_bytes(st, p, n)
            if v is UNDEF:
                return v
            if isinstance(v, Ptr):
                v = self.ptr_to_int(v)
            return T.extract(v, 0, t[1]) if t[1] != 8 * n else v
        if t == PTR:
            v = self.load_bytes(st, p, 8)
            if v is UNDEF or isinstance(v, Ptr):
                return v
            return self.int_to_ptr(v)
        if t[0] in ("arr", "vec"):
            s = size_of(t[2])
            return tuple(self.load(st, t[2], self.padd(p, i * s)) for i in range(t[1]))
        if t[0] == "struct":
            return tuple(self.load(st, e, self.padd(p, field_offset(t, i))) for i, e in enumerate(t[1]))
        raise Unsupported("load of %r" % (t,))

    def store(self, st, t, v, p):
        if t[0] == "i":
            n = store_size(t)
            if v is not UNDEF and t[1] != 8 * n:
                v = T.zext(v, 8 * n)
            self.store_bytes(st, p, n, v)
        elif t == PTR:
            self.store_bytes(st, p, 8, v)
        elif t[0] in ("arr", "vec"):
            s = size_of(t[2])
            for i in range(t[1]):
                self.store(st, t[2], v[i], self.padd(p, i * s))
        elif t[0] == "struct":
            for i, e in enumerate(t[1]):
                self.store(st, e, v[i], self.padd(p, field_offset(t, i)))
        else:
            raise Unsupported("store of %r" % (t,))

    def padd(self, p, d):
        if isinstance(d, int):
            if d == 0:
                return p
            d = T.const(d, 64)
        return Ptr(tuple((c, o, T.add(off, d)) for c, o, off in p.alts))

    def copy(self, st, dst, src, n, move=False):
        if T.isc(n):
            n = n.p
            if n == 0:
                return
            if len(src.alts) == 1 and T.isc(src.alts[0][2]):
                c, o, off = src.alts[0]
                if not self.check_access(st, c, o, off, n, "copy"):
                    return
                cells = self.cells(st, o)
                off = off.p
                parts = []
                pos = off
                while pos < off + n:
                    s = self.find(cells, pos)
                    if s is None:
                        # skip to the next defined byte
                        q = pos + 1
                        while q < off + n and q not in cells:
                            q += 1
                        parts.append((pos - off, q - pos, UNDEF))
                        pos = q
                        continue
                    cn, v = cells[s]
                    k = min(cn - (pos - s), off + n - pos)
                    if k != cn:
                        v = self.read(cells, pos, k)
                    parts.append((pos - off, k, v))
                    pos += k
            else:
                parts = []
                pos = 0
                while pos < n:
                    k = min(8, n - pos)
                    parts.append((pos, k, self.load_bytes(st, self.padd(src, pos), k)))
                    pos += k
            for r, k, v in parts:
                self.store_bytes(st, self.padd(dst, r), k, v)
            return
        # symbolic length: byte by byte
        hi = min(n.hi, max([self.objsize.get(o, 0) for _, o, _ in src.alts if not isinstance(o, tuple)] or [0]))
        if n.hi > hi:
            self.add_ub(st, T.ugt(n, T.const(hi, 64)), "copy length")
        vals = []
        saved = st.lits
        for i in range(hi):
            g = T.ugt(n, T.const(i, 64))
            st.lits = saved + (g,)
            vals.append((g, self.load_bytes(st, self.padd(src, i), 1)))
        for i, (g, v) in enumerate(vals):
            st.lits = saved + (g,)
            q = self.padd(dst, i)
            q2 = Ptr(tuple((T.and_(c, g), o, f) for c, o, f in q.alts)
                     + ((T.not_(g), None, T.const(0, 64)),))
            for c, o, off in q.alts:
                if not self.check_access(st, c, o, off, 1, "copy"):
                    continue
                cells = self.wcells(st, o)
                gg = T.and_(g, c)
                for k in ([off.p] if T.isc(off) else self.candidates(off, 1, self.objsize[o])):
                    g3 = gg if T.isc(off) else T.and_(gg, T.eq(off, T.const(k, 64)))
                    self.write(cells, k, 1, merge_val(g3, v, self.read(cells, k, 1)))
        st.lits = saved

    # --------------------------------------------------------------- guards
    def add_ub(self, st, c, what):
        g = T.and_(conj(st.lits), c)
        if g is not T.FALSE:
            self.ub.append((g, what))

    def assume(self, st, c):
        """Extend the path condition; False when it became infeasible."""
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        if c.op == "and" and c.w == 1:
            return self.assume(st, c.args[0]) and self.assume(st, c.args[1])
        n = T.not_(c)
        for l in st.lits:
            if l is c:
                return True
            if l is n:
                return False
        st.lits = st.lits + (c,)
        return True

    def known(self, st, c):
        n = T.not_(c)
        for l in st.lits:
            if l is c:
                return T.TRUE
            if l is n:
                return T.FALSE
        return c

    # --------------------------------------------------------------- merging
    def merge2(self, a, b):
        n = common_prefix(a.lits, b.lits)
        pa, pb = a.lits[n:], b.lits[n:]
        r = State()
        r.owned = set()
        if not pa or not pb:
            # one path condition subsumes the other: cannot happen for
            # mutually exclusive states unless a literal was redundant
            c = conj(pa) if pa else T.not_(conj(pb))
            r.lits = a.lits[:n]
        else:
            if T.not_(pa[0]) is pb[0]:
                c = pa[0]
            else:
                ca, cb = conj(pa), conj(pb)
                c = ca if len(pa) <= len(pb) else T.not_(cb)
            g = T.or_(conj(pa), conj(pb))
            r.lits = a.lits[:n]
            if g is not T.TRUE:
                r.lits = r.lits + (g,)
        regs = {}
        rb = b.regs
        for k, v in a.regs.items():
            if k in rb:
                w = rb[k]
                regs[k] = v if v is w else merge_val(c, v, w)
        r.regs = regs
        mem = {}
        for o in a.mem.keys() & b.mem.keys():
            ca, cb = a.mem[o], b.mem[o]
            mem[o] = ca if ca is cb else self.merge_cells(c, ca, cb)
        for o in a.mem.keys() ^ b.mem.keys():
            if o in self.base_mem:
                raise Unsupported("write to a global on one path only")
        r.mem = mem
        return r

    def merge_cells(self, c, ca, cb):
        out = {}
        todo = False
        for k, va in ca.items():
            vb = cb.get(k)
            if vb is not None and vb[0] == va[0]:
                out[k] = va if va[1] is vb[1] else (va[0], merge_val(c, va[1], vb[1]))
            else:
                todo = True
        if not todo and len(ca) == len(cb):
            return out
        # differing layouts: split the rest along the union of the boundaries
        done = set(out)
        bounds = set()
        for src in (ca, cb):
            for k, (n, _) in src.items():
                if k not in done:
                    bounds.add(k)
                    bounds.add(k + n)
        bounds = sorted(bounds)
        for s, e in zip(bounds, bounds[1:]):
            if self.covered(out, s):
                continue
            ha = self.find(ca, s) is not None
            hb = self.find(cb, s) is not None
            if ha and hb:
                va, vb = self.read(ca, s, e - s), self.read(cb, s, e - s)
                out[s] = (e - s, va if va is vb else merge_val(c, va, vb))
            elif ha:
                out[s] = (e - s, self.read(ca, s, e - s))
            elif hb:
                out[s] = (e - s, self.read(cb, s, e - s))
        return out

    def covered(self, cells, s):
        return self.find(cells, s) is not None

    def merge(self, states):
        states = list(states)
        while len(states) > 1:
            # join the pair sharing the longest path prefix first
            best = None
            for i in range(len(states) - 1):
                n = common_prefix(states[i].lits, states[i + 1].lits)
                if best is None or n > best[0]:
                    best = (n, i)
            i = best[1]
            m = self.merge2(states[i], states[i + 1])
            states[i:i + 2] = [m]
        return states[0]

    # ------------------------------------------------------------- execution
    def call(self, name, args, st):
        """Run a defined function; returns (state, value), state None if it
        never returns normally."""
        f = self.mod.fns[name]
        self.mod.parse(f)
        self.encoded.add(name)
        if f.cfg is None:
            f.cfg = CFG(f)
        cfg = f.cfg
        self.depth += 1
        if self.depth > 200:
            raise Unsupported("call depth")
        saved = st.regs
        st.regs = {}
        for (t, nm), v in zip(f.params, args):
            st.regs[nm] = v
        allocas = []
        heap = []
        pend = {}
        loops = cfg.loops

        def push(blk, iters, s, prev):
            key = []
            for h in cfg.nest[blk]:
                key.append((cfg.rpo[h], iters[h]))
            key.append((cfg.rpo[blk], 0))
            key = tuple(key)
            e = pend.get(key)
            if e is None:
                pend[key] = (blk, iters, [(s, prev)])
                heapq.heappush(heap, key)
            else:
                e[2].append((s, prev))

        push(f.entry, {h: 0 for h in cfg.nest[f.entry]}, st, None)
        rets = []
        while heap:
            key = heapq.heappop(heap)
            blk, iters, inc = pend.pop(key)
            ins = f.blocks[blk]
            # phis are evaluated per predecessor
            nphi = 0
            while ins[nphi].op == "phi":
                nphi += 1
            if blk in loops and iters[blk] > self.hard:
                raise Unsupported("unwinding limit in " + (f.human or f.name))
            states = []
            live = cfg.live[blk]
            for s, prev in inc:
                if nphi:
                    vals = []
                    for i in ins[:nphi]:
                        for v, p in i.a:
                            if p == prev:
                                vals.append((i.dst, self.val(s, i.ty, v)))
                                break
                        else:
                            raise Unsupported("phi without incoming value")
                    s.regs = {k: v for k, v in s.regs.items() if k in live}
                    s.regs.update(vals)
                else:
                    s.regs = {k: v for k, v in s.regs.items() if k in live}
                states.append(s)
            s = self.merge(states) if len(states) > 1 else states[0]
            if blk in loops:
                it = iters[blk]
                if it > self.max_unroll.get(f.name, 0):
                    self.max_unroll[f.name] = it
                if it >= self.soft and self.feasible is not None and s.lits:
                    self.queries += 1
                    if not self.feasible(s.lits):
                        continue
            dead = False
            for i in ins[nphi:]:
                self.steps += 1
                op = i.op
                if op == "call":
                    s2, v = self.do_call(s, i)
                    if s2 is None:
                        dead = True
                        break
                    s = s2
                    if i.dst:
                        s.regs[i.dst] = v
                    if i.x[3]:
                        self.goto(cfg, s, blk, iters, i.x[3], push)
                        dead = True
                        break
                elif op == "br":
                    self.goto(cfg, s, blk, iters, i.x, push)
                    break
                elif op == "condbr":
                    c = self.force(self.val(s, ("i", 1), i.a), 1)
                    c = self.known(s, c)
                    x, y = i.x
                    if T.isc(c):
                        self.goto(cfg, s, blk, iters, x if c.p else y, push)
                    else:
                        s2 = s.fork()
                        if self.assume(s, c):
                            self.goto(cfg, s, blk, iters, x, push)
                        if self.assume(s2, T.not_(c)):
                            self.goto(cfg, s2, blk, iters, y, push)
                    break
                elif op == "switch":
                    v = self.force(self.val(s, i.ty, i.a), i.ty[1])
                    d, cs = i.x
                    if T.isc(v):
                        for cv, lab in cs:
                            if cv & T.mask(v.w) == v.p:
                                d = lab
                                break
                        self.goto(cfg, s, blk, iters, d, push)
                    else:
                        for cv, lab in cs:
                            e = self.known(s, T.eq(v, T.const(cv, v.w)))
                            if e is T.FALSE:
                                continue
                            s2 = s.fork()
                            if self.assume(s2, e):
                                self.goto(cfg, s2, blk, iters, lab, push)
                            if not self.assume(s, T.not_(e)):
                                s = None
                                break
                        if s is not None:
                            self.goto(cfg, s, blk, iters, d, push)
                    break
                elif op == "ret":
                    v = None if i.a is None else self.val(s, i.ty, i.a)
                    s.regs = {"ret": v}
                    rets.append(s)
                    break
                elif op == "unreachable":
                    self.add_ub(s, T.TRUE, "unreachable in " + (f.human or f.name))
                    break
                elif op == "alloca":
                    n = size_of(i.ty)
                    if i.a is not None:
                        c = self.val(s, ("i", 64), i.a)
                        n *= c.p
                    o = self.new_obj(n, f.name + i.dst)
                    s.mem[o] = {}
                    s.owned.add(o)
                    allocas.append(o)
                    s.regs[i.dst] = mkptr(o, 0)
                else:
                    r = self.simple(s, i, f)
                    if i.dst is not None:
                        s.regs[i.dst] = r
        self.depth -= 1
        if not rets:
            return None, None
        r = self.merge(rets) if len(rets) > 1 else rets[0]
        v = r.regs["ret"]
        for o in allocas:
            r.mem.pop(o, None)
        r.regs = saved
        return r, v

    def goto(self, cfg, s, blk, iters, dst, push):
        n = {}
        for h in cfg.nest[dst]:
            if blk in cfg.loops[h]:
                n[h] = iters[h] + (1 if dst == h else 0)
            else:
                n[h] = 0
        # a back edge restarts the loops nested inside
        if dst in cfg.loops and blk in cfg.loops[dst]:
            pass
        push(dst, n, s, blk)

    # ----------------------------------------------------------- instructions
    def simple(self, s, i, f):
        op = i.op
        if op == "bin":
            return self.binop(s, i)
        if op == "load":
            return self.load(s, i.ty, self.pv(s, i.a))
        if op == "store":
            v = self.val(s, i.ty, i.a[0])
            self.store(s, i.ty, v, self.pv(s, i.a[1]))
            return None
        if op == "icmp":
            return self.icmp(s, i)
        if op == "cast":
            return self.cast(s, i.x[0], i.a[0], self.val(s, i.a[0], i.a[1]), i.ty, i.x[1])
        if op == "gep":
            return self.gep(s, i.ty, self.pv(s, i.a[0]), i.a[1])
        if op == "select":
            c = self.force(self.val(s, ("i", 1), i.a[0]), 1)
            c = self.known(s, c)
            return merge_val(c, self.val(s, i.ty, i.a[1]), self.val(s, i.ty, i.a[2])) if not T.isc(c) \
                else self.val(s, i.ty, i.a[1] if c.p else i.a[2])
        if op == "extractvalue":
            v = self.val(s, i.ty, i.a)
            for k in i.x:
                v = v[k]
            return v
        if op == "insertvalue":
            v = self.val(s, i.ty, i.a[0])
            e = self.val(s, i.a[1], i.a[2])
            return self.insert(v, i.x, e)
        if op == "freeze":
            v = self.val(s, i.ty, i.a)
            return self.force(v, i.ty[1]) if i.ty[0] == "i" else v
        raise Unsupported("instruction: " + (i.text or op))

    def insert(self, v, ix, e):
        l = list(v)
        l[ix[0]] = e if len(ix) == 1 else self.insert(l[ix[0]], ix[1:], e)
        return tuple(l)

    def pv(self, s, v):
        p = self.val(s, PTR, v)
        if p is UNDEF:
            return mkptr(0, 0)
        if not isinstance(p, Ptr):
            return self.int_to_ptr(p)
        return p

    def binop(self, s, i):
        t = i.ty
        op, fl = i.x
        if t[0] != "i":
            raise Unsupported("vector operation: " + i.text)
        a = self.force(self.val(s, t, i.a[0]), t[1])
        b = self.force(self.val(s, t, i.a[1]), t[1])
        w = t[1]
        if op == "add":
            if "nuw" in fl:
                self.add_ub(s, T.ult(T.add(a, b), a), "add nuw")
            if "nsw" in fl:
                self.add_ub(s, sadd_o(a, b), "add nsw")
            return T.add(a, b)
        if op == "sub":
            if "nuw" in fl:
                self.add_ub(s, T.ult(a, b), "sub nuw")
            if "nsw" in fl:
                self.add_ub(s, ssub_o(a, b), "sub nsw")
            return T.sub(a, b)
        if op == "mul":
            if "nuw" in fl:
                self.add_ub(s, umul_o(a, b), "mul nuw")
            return T.mul(a, b)
        if op == "and":
            return T.and_(a, b)
        if op == "or":
            return T.or_(a, b)
        if op == "xor":
            return T.xor_(a, b)
        if op in ("shl", "lshr", "ashr"):
            if b.hi >= w:
                self.add_ub(s, T.uge(b, T.const(w, w)) if w & T.mask(w) == w else T.FALSE, "shift amount")
            return {"shl": T.shl, "lshr": T.lshr, "ashr": T.ashr}[op](a, b)
        if b.lo == 0:
            self.add_ub(s, T.eq(b, T.const(0, w)), "division by zero")
        if op == "udiv":
            return T.udiv(a, b)
        if op == "urem":
            return T.urem(a, b)
        self.add_ub(s, T.and_(T.eq(a, T.const(1 << (w - 1), w)), T.eq(b, T.const(-1, w))), "signed division overflow")
        if op == "sdiv":
            return T.sdiv(a, b)
        return T.srem(a, b)

    def icmp(self, s, i):
        t = i.ty
        a = self.val(s, t, i.a[0])
        b = self.val(s, t, i.a[1])
        if t == PTR:
            a = self.pv(s, i.a[0])
            b = self.pv(s, i.a[1])
            if i.x in ("eq", "ne"):
                r = T.FALSE
                for ca, oa, fa in a.alts:
                    for cb, ob, fb in b.alts:
                        if oa == ob:
                            e = T.eq(fa, fb)
                        elif isinstance(oa, tuple) or isinstance(ob, tuple):
                            e = T.FALSE
                        elif oa == 0 or ob == 0:
                            e = T.eq(T.add(fa, T.const(self.addr(oa), 64)), T.add(fb, T.const(self.addr(ob), 64)))
                        else:
                            e = T.FALSE
                        r = T.or_(r, T.all_([ca, cb, e]))
                return r if i.x == "eq" else T.not_(r)
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                a, b = a.alts[0][2], b.alts[0][2]
            else:
                a, b = self.ptr_to_int(a), self.ptr_to_int(b)
        else:
            a = self.force(a, t[1])
            b = self.force(b, t[1])
        return {"eq": T.eq, "ne": T.ne, "ult": T.ult, "ule": T.ule, "ugt": T.ugt, "uge": T.uge,
                "slt": T.slt, "sle": T.sle, "sgt": T.sgt, "sge": T.sge}[i.x](a, b)

    def cast(self, s, op, t, v, t2, fl):
        if v is UNDEF:
            return UNDEF
        if op == "ptrtoint":
            r = self.ptr_to_int(v) if isinstance(v, Ptr) else v
            return T.extract(r, 0, t2[1]) if t2[1] < 64 else T.zext(r, t2[1])
        if op == "inttoptr":
            return v if isinstance(v, Ptr) else self.int_to_ptr(v)
        if op == "bitcast" and t == t2:
            return v
        if isinstance(v, tuple) or t2[0] != "i":
            raise Unsupported("cast %s of %r" % (op, t))
        if op == "zext":
            return T.zext(v, t2[1])
        if op == "sext":
            return T.sext(v, t2[1])
        if op == "trunc":
            if "nuw" in fl:
                self.add_ub(s, T.ne(T.extract(v, t2[1], v.w - t2[1]), T.const(0, v.w - t2[1])), "trunc nuw")
            return T.extract(v, 0, t2[1])
        raise Unsupported("cast " + op)

    def gep(self, s, t, p, idx):
        off = T.const(0, 64)
        cur = t
        for n, (it, iv) in enumerate(idx):
            v = self.force(self.val(s, it, iv), it[1])
            if it[1] < 64:
                v = T.sext(v, 64)
            if n == 0:
                off = T.add(off, T.mul(v, T.const(size_of(cur), 64)))
            elif cur[0] == "struct":
                off = T.add(off, T.const(field_offset(cur, v.p), 64))
                cur = cur[1][v.p]
            else:
                off = T.add(off, T.mul(v, T.const(size_of(cur[2]), 64)))
                cur = cur[2]
        return self.padd(p, off)

    # ------------------------------------------------------------------ calls
    def outcome(self, s, c, kind, what):
        g = T.and_(conj(s.lits), c)
        if g is not T.FALSE:
            self.outcomes.append(Outcome(g, kind, what))

    def do_call(self, s, i):
        callee, asm, nr, dest = i.x
        if asm is not None:
            return self.asm(s, i, asm)
        if callee[0] == "r":
            p = s.regs[callee[1]]
            if isinstance(p, Ptr) and len(p.alts) == 1 and isinstance(p.alts[0][1], tuple):
                name = p.alts[0][1][1]
            else:
                raise Unsupported("indirect call")
        else:
            name = callee[1]
        if name.startswith("@llvm."):
            return self.intrinsic(s, i, name)
        f = self.mod.fns.get(name)
        if f is None:
            raise Unsupported("call to " + name)
        if f.noreturn or nr:
            self.outcome(s, T.TRUE, "panic", self.describe(s, f, i))
            return None, None
        args = [self.val(s, t, v) for t, v in i.a]
        for rx, h in self.models.items():
            if re.search(rx, name):
                return h(self, s, i, args)
        if f.decl:
            if name in ("@memcmp", "@bcmp"):
                return s, self.memcmp(s, args, name)
            raise Unsupported("call to external " + name)
        return self.call(name, args, s)

    def describe(self, s, f, i):
        nm = f.human or f.name
        # message text of core::panicking::panic(&str, ..)
        try:
            p = self.val(s, PTR, i.a[0][1])
            c, o, off = p.alts[0]
            n = self.val(s, ("i", 64), i.a[1][1])
            if T.isc(n) and T.isc(off):
                v = self.read(self.cells(s, o), off.p, n.p)
                if T.isc(v):
                    return nm + ": " + v.p.to_bytes(n.p, "little").decode("utf8", "replace")
        except Exception:
            pass
        return nm

    def memcmp(self, s, args, name):
        a, b, n = args
        if not T.isc(n):
            raise Unsupported("memcmp of symbolic length")
        eqs = T.TRUE
        res = T.const(0, 32)
        for k in reversed(range(n.p)):
            x = self.force(self.load_bytes(s, self.padd(a, k), 1), 8)
            y = self.force(self.load_bytes(s, self.padd(b, k), 1), 8)
            d = T.sub(T.zext(x, 32), T.zext(y, 32))
            res = T.ite(T.eq(x, y), res, d)
        return res

    def asm(self, s, i, asm):
        tpl, con, words = asm
        m = re.fullmatch(r"\s*div\s+\$\{?2(?::[a-z])?\}?\s*", tpl.replace("\\0A", "").replace("\\09", " "))
        cs = con.split(",")
        if not m or cs[:2] != ["=&{ax}", "=&{dx}"] and cs[:2] != ["={ax}", "={dx}"]:
            if tpl.strip() == "" and i.ty == VOID:
                return s, None
            raise Unsupported("inline assembly: " + tpl + " / " + con)
        ins = [c for c in cs[2:] if not c.startswith("~")]
        vals = [self.force(self.val(s, t, v), t[1]) for t, v in i.a]
        d = lo = hi = None
        for c, v in zip(ins, vals):
            if c in ("0", "{ax}"):
                lo = v
            elif c in ("1", "{dx}"):
                hi = v
            elif c == "r":
                d = v
            else:
                raise Unsupported("inline assembly constraint " + c)
        w = d.w
        # #DE when the quotient does not fit (includes a zero divisor)
        bad = T.uge(hi, d)
        self.outcome(s, bad, "trap", "hardware divide error")
        if not self.assume(s, T.not_(bad)):
            return None, None
        n = T.concat(hi, lo)
        dd = T.zext(d, 2 * w)
        q = T.extract(T.udiv(n, dd), 0, w)
        r = T.extract(T.urem(n, dd), 0, w)
        return s, (q, r)

    def intrinsic(self, s, i, name):
        n = name[6:]
        base = n.split(".")[0]
        if n.startswith(("lifetime", "dbg", "donothing", "experimental.noalias", "sideeffect")):
            return s, None
        if base == "trap" or n.startswith("ubsantrap"):
            self.outcome(s, T.TRUE, "panic", "abort")
            return None, None
        args = []
        for t, v in i.a:
            x = self.val(s, t, v)
            args.append(self.force(x, t[1]) if t[0] == "i" else x)
        if n.startswith("assume"):
            self.add_ub(s, T.not_(args[0]), "assume")
            if not self.assume(s, args[0]):
                return None, None
            return s, None
        if n.startswith("expect"):
            return s, args[0]
        if n.startswith("is.constant"):
            return s, T.FALSE
        if n.startswith("memcpy") or n.startswith("memmove"):
            self.copy(s, args[0], args[1], args[2])
            return s, None
        if n.startswith("memset"):
            if not T.isc(args[2]):
                raise Unsupported("memset of symbolic length")
            k = args[2].p
            if k:
                b = args[1]
                if T.isc(b):
                    v = T.const(int.from_bytes(bytes([b.p]) * k, "little"), 8 * k)
                    self.store_bytes(s, args[0], k, v)
                else:
                    for j in range(k):
                        self.store_bytes(s, self.padd(args[0], j), 1, b)
            return s, None
        m = re.match(r"([us])(add|sub|mul)\.with\.overflow\.i(\d+)$", n)
        if m:
            a, b = args
            sg, op = m.group(1), m.group(2)
            if sg == "u":
                if op == "add":
                    w = a.w
                    x = T.add(T.zext(a, w + 1), T.zext(b, w + 1))
                    return s, (T.extract(x, 0, w), T.extract(x, w, 1))
                if op == "sub":
                    return s, (T.sub(a, b), T.ult(a, b))
                return s, (T.mul(a, b), umul_o(a, b))
            if op == "add":
                return s, (T.add(a, b), sadd_o(a, b))
            if op == "sub":
                return s, (T.sub(a, b), ssub_o(a, b))
            w = a.w
            p = T.mul(T.sext(a, 2 * w), T.sext(b, 2 * w))
            return s, (T.mul(a, b), T.ne(T.sext(T.extract(p, 0, w), 2 * w), p))
        if not re.search(r"\.i\d+$", n) or i.ty[0] not in ("i", "void"):
            raise Unsupported("intrinsic " + n)
        if base == "ctlz":
            if args[1] is T.TRUE and args[0].lo == 0:
                self.add_ub(s, T.eq(args[0], T.const(0, args[0].w)), "ctlz of zero")
            return s, T.ctlz(args[0])
        if base == "cttz":
            if args[1] is T.TRUE and args[0].lo == 0:
                self.add_ub(s, T.eq(args[0], T.const(0, args[0].w)), "cttz of zero")
            return s, T.cttz(args[0])
        if base == "ctpop":
            return s, T.ctpop(args[0])
        if base == "bswap":
            return s, T.bswap(args[0])
        if base == "bitreverse":
            return s, T.bitreverse(args[0])
        if base in ("fshl", "fshr"):
            a, b, c = args
            w = a.w
            c = T.urem(c, T.const(w, w)) if w & (w - 1) else T.and_(c, T.const(w - 1, w))
            x = T.concat(a, b)
            cc = T.zext(c, 2 * w)
            if base == "fshl":
                return s, T.extract(T.shl(x, cc), w, w)
            return s, T.extract(T.lshr(x, cc), 0, w)
        if base in ("umin", "umax", "smin", "smax"):
            a, b = args
            c = {"umin": T.ult, "umax": T.ugt, "smin": T.slt, "smax": T.sgt}[base](a, b)
            return s, T.ite(c, a, b)
        if base == "abs":
            a = args[0]
            if args[1] is T.TRUE:
                self.add_ub(s, T.eq(a, T.const(1 << (a.w - 1), a.w)), "abs of minimum")
            return s, T.ite(T.sign(a), T.neg(a), a)
        if base in ("ucmp", "scmp"):
            a, b = args
            lt = T.ult if base == "ucmp" else T.slt
            w = i.ty[1]
            return s, T.ite(lt(a, b), T.const(-1, w), T.ite(T.eq(a, b), T.const(0, w), T.const(1, w)))
        if n.startswith(("uadd.sat", "usub.sat", "sadd.sat", "ssub.sat")):
            a, b = args
            w = a.w
            k = n[:4]
            if k == "uadd":
                r = T.add(a, b)
                return s, T.ite(T.ult(r, a), T.const(-1, w), r)
            if k == "usub":
                return s, T.ite(T.ult(a, b), T.const(0, w), T.sub(a, b))
            o = sadd_o(a, b) if k == "sadd" else ssub_o(a, b)
            r = T.add(a, b) if k == "sadd" else T.sub(a, b)
            return s, T.ite(o, T.ite(T.sign(a), T.const(1 << (w - 1), w), T.const((1 << (w - 1)) - 1, w)), r)
        raise Unsupported("intrinsic " + n)


def sadd_o(a, b):
    r = T.add(a, b)
    return T.and_(T.iff(T.sign(a), T.sign(b)), T.xor_(T.sign(a), T.sign(r)))


def ssub_o(a, b):
    r = T.sub(a, b)
    return T.and_(T.xor_(T.sign(a), T.sign(b)), T.xor_(T.sign(a), T.sign(r)))


def umul_o(a, b):
    w = a.w
    p = T.mul(T.zext(a, 2 * w), T.zext(b, 2 * w))
    return T.ne(T.extract(p, w, w), T.const(0, w))


def run_probe(mod, name, inp, out_size, models=None, **kw):
    """Execute probe `name(out, inp)`.

    `inp` is a list of (nbytes, Term).  Returns (Exec, returned guard,
    output reader) where the reader maps (offset, nbytes) to a Term.
    """
    ex = Exec(mod, **kw)
    ex.models = models or {}
    st = State()
    st.mem = {}
    st.owned = set()
    st.regs = {}
    st.lits = ()
    size = sum(n for n, _ in inp)
    oi = ex.new_obj(size, "input")
    oo = ex.new_obj(out_size, "output")
    cells = {}
    off = 0
    for n, t in inp:
        assert t.w == 8 * n
        cells[off] = (n, t)
        off += n
    st.mem[oi] = cells
    st.mem[oo] = {0: (out_size, T.const(0, 8 * out_size))} if out_size else {}
    st.owned = {oi, oo}
    fin, _ = ex.call("@" + name, [mkptr(oo, 0), mkptr(oi, 0)], st)
    if fin is None:
        return ex, T.FALSE, None
    mem = fin.mem[oo]

    def rd(off, n):
        v = ex.read(mem, off, n)
        if v is UNDEF:
            return T.fresh(8 * n)
        if isinstance(v, Ptr):
            return ex.ptr_to_int(v)
        return v
    return ex, conj(fin.lits), rd
