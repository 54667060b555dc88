"""Reader for the textual LLVM IR that rustc emits (bodies parsed lazily)."""
import re

TOK = re.compile(r'''
    \s+
  | ;[^\n]*
  | (?P<loc>%"[^"]*"|%[\w.$-]+)
  | (?P<glob>@"[^"]*"|@[\w.$-]+)
  | (?P<meta>!DIExpression\([^)]*\)|![\w.]*)
  | (?P<cstr>c"(?:[^"])*")
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<num>-?\d+(?![\w.]))
  | (?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fHKLMR]+)
  | (?P<attr>\#\d+)
  | (?P<word>[A-Za-z_$.][\w.$]*)
  | (?P<p>\.\.\.|<\{|\}>|[-{}\[\]()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError("token at %r" % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group()))
    return out


class Fn:
    __slots__ = ("name", "ret", "params", "body", "blocks", "entry", "noreturn", "decl", "cfg", "lines", "human")


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "x", "text")

    def __init__(self, op, dst=None, ty=None, a=None, x=None):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.x = x
        self.text = None


PTR = ("ptr",)
VOID = ("void",)
VALUE_WORDS = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr",
               "inttoptr", "ptrtoint", "splat", "none", "trunc", "sub", "add"}


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def acc(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise SyntaxError("expected %r at %r" % (s, self.t[self.i - 2:self.i + 6]))

    def end(self):
        return self.i >= len(self.t)

    def skip_parens(self):
        self.exp("(")
        d = 1
        while d:
            v = self.next()[1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1

    def type(self):
        k, v = self.next()
        if v == "ptr":
            t = PTR
            if self.peek()[1] == "addrspace":
                self.next()
                self.skip_parens()
        elif v == "void":
            t = VOID
        elif k == "word" and re.fullmatch(r"i\d+", v):
            t = ("i", int(v[1:]))
        elif v in ("float", "double", "half", "x86_fp80", "fp128"):
            t = ("fp", v)
        elif v in ("metadata", "token", "label", "opaque"):
            t = (v,)
        elif v == "[":
            n = int(self.next()[1])
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = ("arr", n, e)
        elif v == "{" or v == "<{":
            close = "}" if v == "{" else "}>"
            es = []
            if not self.acc(close):
                while True:
                    es.append(self.type())
                    if self.acc(close):
                        break
                    self.exp(",")
            t = ("struct", tuple(es), v == "<{")
        elif v == "<":
            n = int(self.next()[1])
            self.exp("x")
            e = self.type()
            self.exp(">")
            t = ("vec", n, e)
        elif k == "loc":
            t = self.mod.types[v]
        else:
            raise SyntaxError("type %r near %r" % (v, self.t[max(0, self.i - 6):self.i + 6]))
        while self.peek()[1] == "(" and t != ("metadata",) and self._fnty():
            self.skip_parens()
        return t

    def _fnty(self):
        # function type "ret (args)" only appears before a callee
        j = self.i
        d = 0
        while j < len(self.t):
            v = self.t[j][1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
                if d == 0:
                    break
            j += 1
        return j + 1 < len(self.t) and self.t[j + 1][0] in ("glob", "loc")

    def attrs(self):
        """Skip parameter attributes; returns set of words."""
        s = set()
        while True:
            k, v = self.peek()
            if k == "word" and v not in VALUE_WORDS and v != "asm":
                self.next()
                s.add(v)
                if self.peek()[1] == "(":
                    self.skip_parens()
                elif v == "align" and self.peek()[0] == "num":
                    self.next()
            elif k == "str" or k == "attr":
                self.next()
                if self.acc("="):
                    self.next()
            else:
                return s

    def value(self, ty):
        k, v = self.next()
        if k == "loc":
            return ("r", v)
        if k == "num":
            return ("c", int(v))
        if k == "glob":
            return ("g", v)
        if v == "true":
            return ("c", 1)
        if v == "false":
            return ("c", 0)
        if v in ("null", "zeroinitializer", "none"):
            return ("z",)
        if v in ("undef", "poison"):
            return ("u",)
        if k == "cstr":
            return ("s", unescape(v[2:-1]))
        if v in ("[", "{", "<{", "<"):
            close = {"[": "]", "{": "}", "<{": "}>", "<": ">"}[v]
            es = []
            if not self.acc(close):
                while True:
                    t = self.type()
                    es.append((t, self.value(t)))
                    if self.acc(close):
                        break
                    self.exp(",")
            return ("agg", es)
        if v == "getelementptr":
            while self.peek()[0] == "word" and self.peek()[1] in ("inbounds", "nuw", "nusw", "inrange"):
                w = self.next()[1]
                if self.peek()[1] == "(" and w == "inrange":
                    self.skip_parens()
            self.exp("(")
            bt = self.type()
            self.exp(",")
            self.type()
            b = self.value(PTR)
            idx = []
            while self.acc(","):
                t = self.type()
                idx.append((t, self.value(t)))
            self.exp(")")
            return ("gep", bt, b, idx)
        if v in ("inttoptr", "ptrtoint", "trunc"):
            self.exp("(")
            t = self.type()
            a = self.value(t)
            self.exp("to")
            t2 = self.type()
            self.exp(")")
            return ("cast", v, t, a, t2)
        if v in ("sub", "add"):
            while self.peek()[0] == "word" and self.peek()[1] in ("nuw", "nsw"):
                self.next()
            self.exp("(")
            t = self.type()
            a = self.value(t)
            self.exp(",")
            t2 = self.type()
            b = self.value(t2)
            self.exp(")")
            return ("bin", v, t, a, b)
        if v == "splat":
            self.exp("(")
            t = self.type()
            a = self.value(t)
            self.exp(")")
            return ("splat", t, a)
        raise SyntaxError("value %r near %r" % (v, self.t[max(0, self.i - 6):self.i + 6]))

    def tv(self):
        t = self.type()
        self.attrs()
        return (t, self.value(t))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "volatile",
         "tail", "musttail", "notail", "nnan", "ninf", "nsz", "fast"}


class Module:
    def __init__(self):
        self.fns = {}
        self.globs = {}
        self.types = {}
        self.attrs = {}
        self.aliases = {}

    def load(self, path, tag=""):
        """Merge the definitions of an .ll file.

        Private symbols are renamed with `tag` so that several files can be
        loaded side by side.
        """
        with open(path) as f:
            lines = f.read().split("\n")
        local = {}
        attrs = {}
        pend = []
        human = None
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("; ") and i + 1 < n:
                if not ln.startswith("; Function Attrs"):
                    human = ln[2:]
            elif ln.startswith("define ") or ln.startswith("declare "):
                decl = ln.startswith("declare")
                body = []
                start = i
                if not decl:
                    i += 1
                    while lines[i] != "}":
                        body.append(lines[i])
                        i += 1
                pend.append((ln, decl, body, human))
                human = None
            elif ln.startswith("@"):
                m = re.match(r'(@"[^"]*"|@[\w.$-]+)\s*=\s*(.*)$', ln)
                name, rest = m.group(1), m.group(2)
                self.globs.setdefault(name, rest)
            elif ln.startswith("attributes "):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", ln)
                attrs[m.group(1)] = m.group(2)
            elif ln.startswith("%"):
                m = re.match(r'(%"[^"]*"|%[\w.$-]+)\s*=\s*type\s+(.*)$', ln)
                if m:
                    self.types[m.group(1)] = P(tokenize(m.group(2)), self).type()
            i += 1
        for ln, decl, body, human in pend:
            m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', ln)
            name = m.group(1)
            if name in self.fns and (decl or not self.fns[name].decl):
                continue
            f = Fn()
            f.name = name
            f.decl = decl
            f.lines = body
            f.blocks = None
            f.cfg = None
            f.human = human
            nr = False
            for a in re.findall(r"#\d+", ln):
                if re.search(r"\bnoreturn\b", attrs.get(a, "")):
                    nr = True
            if re.search(r"\bnoreturn\b", ln):
                nr = True
            f.noreturn = nr
            f.body = ln
            f.params = None
            self.fns[name] = f

    def header(self, f):
        if f.params is not None:
            return
        m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', f.body)
        p = P(tokenize(f.body[m.end() - 1:]), self)
        p.exp("(")
        ps = []
        if not p.acc(")"):
            while True:
                if p.acc("..."):
                    p.exp(")")
                    break
                t = p.type()
                p.attrs()
                nm = None
                if p.peek()[0] == "loc":
                    nm = p.next()[1]
                ps.append((t, nm))
                if p.acc(")"):
                    break
                p.exp(",")
        f.params = ps

    def parse(self, f):
        if f.blocks is not None:
            return f
        self.header(f)
        blocks = {}
        cur = None
        order = []
        buf = None
        for ln in f.lines:
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            if not ln.startswith(" "):
                m = re.match(r'("[^"]*"|[\w.$-]+):', ln)
                lab = "%" + m.group(1)
                cur = blocks[lab] = []
                order.append(lab)
                continue
            if cur is None:
                # unnamed entry block: number follows the unnamed parameters
                k = sum(1 for _, nm in f.params if nm is None or re.fullmatch(r"%\d+", nm))
                lab = "%%%d" % k
                cur = blocks[lab] = []
                order.append(lab)
            s = ln.strip()
            if buf is not None:
                buf += " " + s
                if s.startswith("]"):
                    cur.append(self.instr(buf))
                    buf = None
                continue
            if s.startswith("switch ") and "]" not in s.split("[", 1)[-1]:
                buf = s
                continue
            ins = self.instr(s)
            if ins is not None:
                cur.append(ins)
        f.blocks = blocks
        f.entry = order[0]
        return f

    def instr(self, s):
        if s.startswith("#dbg"):
            return None
        p = P(tokenize(s), self)
        dst = None
        if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
            dst = p.next()[1]
            p.next()
        k, op = p.next()
        while op in ("tail", "musttail", "notail"):
            k, op = p.next()
        fl = set()

        def flags():
            while p.peek()[0] == "word" and p.peek()[1] in FLAGS:
                fl.add(p.next()[1])
        if op in BIN:
            flags()
            t = p.type()
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            r = Instr("bin", dst, t, (a, b), (op, fl))
        elif op == "icmp":
            flags()
            c = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            r = Instr("icmp", dst, t, (a, b), c)
        elif op in CAST:
            flags()
            t = p.type()
            a = p.value(t)
            p.exp("to")
            t2 = p.type()
            r = Instr("cast", dst, t2, (t, a), (op, fl))
        elif op == "load":
            flags()
            if p.acc("atomic"):
                flags()
            t = p.type()
            p.exp(",")
            p.type()
            a = p.value(PTR)
            r = Instr("load", dst, t, a)
        elif op == "store":
            flags()
            t = p.type()
            v = p.value(t)
            p.exp(",")
            p.type()
            a = p.value(PTR)
            r = Instr("store", None, t, (v, a))
        elif op == "alloca":
            t = p.type()
            cnt = None
            if p.acc(",") and p.peek()[1] != "align":
                ct = p.type()
                cnt = p.value(ct)
            r = Instr("alloca", dst, t, cnt)
        elif op == "getelementptr":
            flags()
            t = p.type()
            p.exp(",")
            p.type()
            b = p.value(PTR)
            idx = []
            while p.acc(","):
                if p.peek()[0] == "meta":
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            r = Instr("gep", dst, t, (b, idx), fl)
        elif op == "br":
            if p.acc("label"):
                r = Instr("br", None, None, None, p.next()[1])
            else:
                t = p.type()
                c = p.value(t)
                p.exp(",")
                p.exp("label")
                x = p.next()[1]
                p.exp(",")
                p.exp("label")
                y = p.next()[1]
                r = Instr("condbr", None, None, c, (x, y))
        elif op == "switch":
            t = p.type()
            v = p.value(t)
            p.exp(",")
            p.exp("label")
            d = p.next()[1]
            p.exp("[")
            cs = []
            while not p.acc("]"):
                ct = p.type()
                cv = p.value(ct)
                p.exp(",")
                p.exp("label")
                cs.append((cv[1], p.next()[1]))
            r = Instr("switch", None, t, v, (d, cs))
        elif op == "ret":
            t = p.type()
            r = Instr("ret", None, t, None if t == VOID else p.value(t))
        elif op == "unreachable":
            r = Instr("unreachable")
        elif op == "phi":
            t = p.type()
            inc = []
            while True:
                p.exp("[")
                v = p.value(t)
                p.exp(",")
                inc.append((v, p.next()[1]))
                p.exp("]")
                if not p.acc(","):
                    break
                if p.peek()[0] == "meta":
                    break
            r = Instr("phi", dst, t, inc)
        elif op == "select":
            flags()
            ct = p.type()
            c = p.value(ct)
            p.exp(",")
            t = p.type()
            a = p.value(t)
            p.exp(",")
            p.type()
            b = p.value(t)
            r = Instr("select", dst, t, (c, a, b))
        elif op == "extractvalue":
            t = p.type()
            a = p.value(t)
            ix = []
            while p.acc(","):
                if p.peek()[0] != "num":
                    break
                ix.append(int(p.next()[1]))
            r = Instr("extractvalue", dst, t, a, ix)
        elif op == "insertvalue":
            t = p.type()
            a = p.value(t)
            p.exp(",")
            et = p.type()
            e = p.value(et)
            ix = []
            while p.acc(","):
                if p.peek()[0] != "num":
                    break
                ix.append(int(p.next()[1]))
            r = Instr("insertvalue", dst, t, (a, et, e), ix)
        elif op == "freeze":
            t = p.type()
            r = Instr("freeze", dst, t, p.value(t))
        elif op in ("call", "invoke"):
            flags()
            rattrs = set()
            while True:
                k, v = p.peek()
                if k == "word" and not re.fullmatch(r"i\d+|ptr|void|float|double|metadata|token", v):
                    p.next()
                    rattrs.add(v)
                    if p.peek()[1] == "(":
                        p.skip_parens()
                    elif v == "align" and p.peek()[0] == "num":
                        p.next()
                elif k == "str":
                    p.next()
                else:
                    break
            t = p.type()
            if p.peek()[1] == "(" and p.peek()[0] == "p":
                p.skip_parens()
            asm = None
            if p.acc("asm"):
                ws = []
                while p.peek()[0] == "word":
                    ws.append(p.next()[1])
                tpl = p.next()[1][1:-1]
                p.exp(",")
                con = p.next()[1][1:-1]
                asm = (tpl, con, ws)
                callee = None
            else:
                k, callee = p.next()
                callee = ("g" if k == "glob" else "r", callee)
            p.exp("(")
            args = []
            if not p.acc(")"):
                while True:
                    at = p.type()
                    if at == ("metadata",):
                        d = 0
                        while True:
                            v = p.peek()[1]
                            if d == 0 and v in (",", ")"):
                                break
                            if v == "(":
                                d += 1
                            if v == ")":
                                d -= 1
                            p.next()
                        args.append((at, ("u",)))
                    else:
                        p.attrs()
                        args.append((at, p.value(at)))
                    if p.acc(")"):
                        break
                    p.exp(",")
            nr = False
            dest = None
            while not p.end():
                k, v = p.next()
                if v == "to":
                    p.exp("label")
                    dest = p.next()[1]
                if v == "noreturn":
                    nr = True
            r = Instr("call", dst, t, args, (callee, asm, nr, dest))
        elif op in ("landingpad", "resume", "cleanup", "fence"):
            r = Instr("unsupported", dst, None, None, op)
        else:
            r = Instr("unsupported", dst, None, None, op)
        r.text = s
        return r


# ------------------------------------------------------------------ layout

def align_of(t):
    k = t[0]
    if k == "i":
        n = t[1]
        if n <= 8:
            return 1
        if n <= 16:
            return 2
        if n <= 32:
            return 4
        if n <= 64:
            return 8
        return 16
    if k == "ptr":
        return 8
    if k == "arr":
        return align_of(t[2])
    if k == "struct":
        if t[2]:
            return 1
        return max([align_of(e) for e in t[1]] or [1])
    if k == "vec":
        return size_of(t)
    if k == "fp":
        return {"float": 4, "double": 8, "half": 2}.get(t[1], 16)
    raise NotImplementedError(t)


def store_size(t):
    if t[0] == "i":
        return (t[1] + 7) // 8
    return size_of(t)


def size_of(t):
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        a = align_of(t)
        return (n + a - 1) // a * a
    if k == "ptr":
        return 8
    if k == "arr":
        return t[1] * size_of(t[2])
    if k == "vec":
        return t[1] * size_of(t[2])
    if k == "struct":
        off = 0
        for e in t[1]:
            if not t[2]:
                a = align_of(e)
                off = (off + a - 1) // a * a
            off += size_of(e)
        a = align_of(t)
        return (off + a - 1) // a * a
    if k == "fp":
        return {"float": 4, "double": 8, "half": 2}.get(t[1], 16)
    raise NotImplementedError(t)


def field_offset(t, i):
    off = 0
    for j, e in enumerate(t[1]):
        if not t[2]:
            a = align_of(e)
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += size_of(e)
    raise IndexError
