"""A small two state simulator for the Verilog which the spade compiler emits.

   d = load("out.sv"); s = Sim(d, "top"); s.set(x_i=3); s.clock("clk_i"); s.get("output__")

Registers start at 0. Only what the compiler emits is understood; anything else is an error.
"""
import re, subprocess, sys, os, tempfile

TOK = re.compile(r"""\s+|(?P<str>"[^"]*")|(?P<esc>\\\S+)|(?P<num>\d*'s?[bdh][0-9a-fA-FxXzZ_?]+)|(?P<int>\d+)"""
                 r"""|(?P<id>[$`A-Za-z_][A-Za-z0-9_$]*)|(?P<op><<<|>>>|<<|>>|<=|>=|==|!=|&&|\|\||\+:|-:|[-+*/%<>!~&|^?:;,.(){}\[\]=@#])""")


def lex(t):
    t = re.sub(r"`ifdef COCOTB_SIM.*?`endif", "", t, flags=re.S)
    t = re.sub(r"`COCOTB_CODE\(.*?\)\n", "\n", t)
    t = re.sub(r"`default_nettype \w+", "", t)
    t = re.sub(r"\(\*.*?\*\)", "", t)
    t = re.sub(r"//[^\n]*", "", t)
    r, i = [], 0
    while i < len(t):
        m = TOK.match(t, i)
        if not m:
            raise SyntaxError("lex: " + t[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k:
            v = m.group(k)
            r.append((k, v[1:] if k == "esc" else v))
    r.append(("eof", ""))
    return r


class P:
    def __init__(self, t):
        self.t, self.i, self.macros = t, 0, {}

    def pk(self):
        return self.t[self.i]

    def nx(self):
        self.i += 1
        return self.t[self.i - 1]

    def at(self, v):
        return self.pk()[1] == v and self.pk()[0] in ("op", "id")

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise SyntaxError("expected %s at %s" % (v, self.t[max(0, self.i - 6):self.i + 6]))

    def name(self):
        k, v = self.nx()
        if k not in ("id", "esc"):
            raise SyntaxError("name: " + v)
        return self.macros.get(v, v) if k == "id" else v

    BIN = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>", ">>>", "<<<"],
           ["+", "-"], ["*", "/", "%"]]

    def expr(self):
        c = self.bin(0)
        if self.eat("?"):
            a = self.expr()
            self.need(":")
            return ("tern", c, a, self.expr())
        return c

    def bin(self, l):
        if l == len(self.BIN):
            return self.un()
        a = self.bin(l + 1)
        while self.pk()[0] == "op" and self.pk()[1] in self.BIN[l]:
            o = self.nx()[1]
            a = ("bin", o, a, self.bin(l + 1))
        return a

    def un(self):
        if self.pk()[0] == "op" and self.pk()[1] in "~!-&|^+":
            return ("un", self.nx()[1], self.un())
        return self.post()

    def post(self):
        k, v = self.pk()
        if k == "num":
            self.i += 1
            w, b = v.split("'")
            s = b[0] == "s"
            b = b[s:]
            d = re.sub("[xXzZ?]", "0", b[1:].replace("_", ""))
            return ("num", int(w or 32), int(d, {"b": 2, "d": 10, "h": 16}[b[0]]), s)
        if k == "int":
            self.i += 1
            return ("num", 32, int(v), True)
        if self.eat("("):
            e = self.expr()
            self.need(")")
            return e
        if self.eat("{"):
            e = self.expr()
            if self.eat("{"):
                x = self.cat()
                self.need("}")
                return ("rep", e, x)
            return self.cat(e)
        if v in ("$signed", "$unsigned"):
            self.i += 1
            self.need("(")
            e = self.expr()
            self.need(")")
            return ("sgn", v == "$signed", e)
        e = ("id", self.name())
        while self.eat("["):
            a = self.expr()
            if self.eat(":"):
                e = ("slice", e, a, self.expr())
            elif self.eat("+:"):
                e = ("part", e, a, self.expr())
            elif self.eat("-:"):
                w = self.expr()
                e = ("part", e, ("bin", "-", a, ("bin", "-", w, ("num", 32, 1, True))), w)
            else:
                e = ("bit", e, a)
            self.need("]")
        return e

    def cat(self, e=None):
        r = [e if e is not None else self.expr()]
        while self.eat(","):
            r.append(self.expr())
        self.need("}")
        return ("cat", r)

    def rng(self):
        if self.eat("["):
            a = self.expr()
            self.need(":")
            b = self.expr()
            self.need("]")
            return const(a) - const(b) + 1
        return 1

    def stmt(self):
        if self.eat("begin"):
            r = []
            while not self.eat("end"):
                r.append(self.stmt())
            return ("blk", r)
        if self.eat("if"):
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.stmt()
            b = self.stmt() if self.eat("else") else None
            return ("if", c, a, b)
        if self.at("priority") or self.at("casez") or self.at("case"):
            self.eat("priority")
            z = self.nx()[1] == "casez"
            self.need("(")
            s = self.expr()
            self.need(")")
            arms = []
            while not self.eat("endcase"):
                if self.eat("default"):
                    self.eat(":")
                    arms.append((None, self.stmt()))
                    continue
                v = self.nx()[1].split("'")[1][1:]
                self.need(":")
                arms.append((v, self.stmt()))
            return ("case", s, arms)
        if self.pk()[1].startswith("$"):
            while not self.eat(";"):
                self.i += 1
            return ("blk", [])
        if self.eat(";"):
            return ("blk", [])
        l = self.post()
        op = self.nx()[1]
        e = self.expr()
        self.need(";")
        return ("asg", l, e, op == "<=")

    def module(self):
        m = {"ports": [], "w": {}, "mem": {}, "asg": [], "ff": [], "comb": [], "init": [], "inst": [], "const": {}}
        self.need("module")
        m["name"] = self.name()
        self.need("(")
        while not self.eat(")"):
            d = self.nx()[1]
            w = self.rng()
            n = self.name()
            m["ports"].append((d, n))
            m["w"][n] = w
            self.eat(",")
        self.need(";")
        while not self.eat("endmodule"):
            if self.pk()[1] == "`define":
                self.i += 1
                a = self.nx()[1]
                self.macros["`" + a] = self.name()
            elif self.pk()[1] in ("logic", "reg", "wire", "tri") and self.pk()[0] == "id":
                self.i += 1
                self.eat("signed")
                w = self.rng()
                n = self.name()
                m["w"][n] = w
                if self.at("["):
                    m["mem"][n] = self.rng()
                self.need(";")
            elif self.eat("localparam"):
                w = self.rng()
                n = self.name()
                self.need("=")
                m["w"][n] = w
                m["const"][n] = const(self.expr()) & ((1 << w) - 1)
                self.need(";")
            elif self.eat("assign"):
                l = self.post()
                self.need("=")
                m["asg"].append((l, self.expr()))
                self.need(";")
            elif self.eat("always_comb"):
                m["comb"].append(self.stmt())
            elif self.eat("always"):
                self.need("@")
                self.need("(")
                if self.eat("posedge"):
                    c = self.expr()
                    while not self.eat(")"):
                        self.i += 1
                    m["ff"].append((c, self.stmt()))
                else:
                    while not self.eat(")"):
                        self.i += 1
                    self.stmt()
            elif self.eat("initial"):
                m["init"].append(self.stmt())
            else:
                t = self.name()
                n = self.name()
                self.need("(")
                cs = {}
                while not self.eat(")"):
                    self.need(".")
                    p = self.name()
                    self.need("(")
                    cs[p] = None if self.at(")") else self.expr()
                    self.need(")")
                    self.eat(",")
                self.need(";")
                m["inst"].append((t, n, cs))
        return m


def const(e):
    return ev(e, None, None)[0] if e[0] != "num" else e[2]


def load(f):
    p = P(lex(open(f).read()))
    r = {}
    while p.pk()[0] != "eof":
        m = p.module()
        r[m["name"]] = m
    return r


def mask(w):
    return (1 << w) - 1


def width(e, s):
    k = e[0]
    if k == "num":
        return e[1]
    if k == "id":
        return s.w[e[1]]
    if k == "bit":
        return s.w[e[1][1]] if e[1][0] == "id" and e[1][1] in s.mem else 1
    if k == "slice":
        return ev(e[2], s, None)[0] - ev(e[3], s, None)[0] + 1
    if k == "part":
        return ev(e[3], s, None)[0]
    if k == "un":
        return 1 if e[1] in "!&|^" else width(e[2], s)
    if k == "bin":
        if e[1] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            return 1
        if e[1] in ("<<", ">>", ">>>", "<<<"):
            return width(e[2], s)
        return max(width(e[2], s), width(e[3], s))
    if k == "tern":
        return max(width(e[2], s), width(e[3], s))
    if k == "cat":
        return sum(width(x, s) for x in e[1])
    if k == "rep":
        return ev(e[1], s, None)[0] * width(e[2], s)
    if k == "sgn":
        return width(e[2], s)
    raise Exception(k)


def signed(e, s):
    k = e[0]
    if k == "num":
        return e[3]
    if k == "sgn":
        return e[1]
    if k == "un":
        return e[1] in "~-+" and signed(e[2], s)
    if k == "bin":
        if e[1] in ("<<", ">>", ">>>", "<<<"):
            return signed(e[2], s)
        return e[1] in ("+", "-", "*", "/", "%", "&", "|", "^") and signed(e[2], s) and signed(e[3], s)
    if k == "tern":
        return signed(e[2], s) and signed(e[3], s)
    return False


def sx(v, w):
    return v - (1 << w) if w and v >> (w - 1) & 1 else v


def ev(e, s, w=None, sg=None):
    """value, width in a context of w bits"""
    ow = width(e, s)
    w = max(w or 0, ow)
    if sg is None:
        sg = signed(e, s)
    k = e[0]

    def ext(v):
        return (sx(v, ow) if sg else v) & mask(w)

    if k == "num":
        return ext(e[2] & mask(ow)), w
    if k == "id":
        return ext(s.v[e[1]]), w
    if k == "bit":
        i = ev(e[2], s)[0]
        if e[1][0] == "id" and e[1][1] in s.mem:
            return ext(s.mem[e[1][1]].get(i, 0)), w
        return ext(ev(e[1], s)[0] >> i & 1), w
    if k == "slice":
        lo = ev(e[3], s)[0]
        return ext(ev(e[1], s)[0] >> lo & mask(ow)), w
    if k == "part":
        lo = ev(e[2], s, 32)[0]
        return ext(ev(e[1], s)[0] >> lo & mask(ow)), w
    if k == "un":
        if e[1] in "!&|^":
            v = ev(e[2], s)[0]
            n = width(e[2], s)
            r = {"!": v == 0, "&": v == mask(n), "|": v != 0, "^": bin(v).count("1") % 2}[e[1]]
            return int(r), w
        v = ev(e[2], s, w, sg)[0]
        return {"~": ~v, "-": -v, "+": v}[e[1]] & mask(w), w
    if k == "bin":
        o = e[1]
        if o in ("&&", "||"):
            a, b = ev(e[2], s)[0] != 0, ev(e[3], s)[0] != 0
            return int(a and b if o == "&&" else a or b), w
        if o in ("==", "!=", "<", ">", "<=", ">="):
            cw = max(width(e[2], s), width(e[3], s))
            cs = signed(e[2], s) and signed(e[3], s)
            a, b = ev(e[2], s, cw, cs)[0], ev(e[3], s, cw, cs)[0]
            if cs:
                a, b = sx(a, cw), sx(b, cw)
            return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o]), w
        if o in ("<<", ">>", ">>>", "<<<"):
            a, b = ev(e[2], s, w, sg)[0], ev(e[3], s)[0]
            if o[0] == "<":
                return (a << b) & mask(w) if b <= w else 0, w
            return ((sx(a, w) if o == ">>>" and sg else a) >> b) & mask(w), w
        a, b = ev(e[2], s, w, sg)[0], ev(e[3], s, w, sg)[0]
        if sg:
            a, b = sx(a, w), sx(b, w)
        if o in "/%":
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            r = q if o == "/" else a - b * q
        else:
            r = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[o]
        return r & mask(w), w
    if k == "tern":
        return ev(e[2] if ev(e[1], s)[0] else e[3], s, w, sg)
    if k == "cat":
        r = 0
        for x in e[1]:
            r = r << width(x, s) | ev(x, s)[0]
        return ext(r), w
    if k == "rep":
        r = 0
        for _ in range(ev(e[1], s)[0]):
            r = r << width(e[2], s) | ev(e[2], s)[0]
        return ext(r), w
    if k == "sgn":
        return ext(ev(e[2], s)[0]), w
    raise Exception(k)


class Sim:
    def __init__(self, d, top):
        m = d[top]
        self.m, self.w = m, dict(m["w"])
        self.v = {n: 0 for n in self.w}
        self.v.update(m["const"])
        self.mem = {n: {} for n in m["mem"]}
        self.sub = []
        for t, n, cs in m["inst"]:
            self.sub.append((Sim(d, t), n, cs))
        self.nba = []
        for b in m["init"]:
            self.run(b)
        self.settle()

    def put(self, l, val):
        old = None
        if l[0] == "id":
            old = self.v[l[1]]
            self.v[l[1]] = val & mask(self.w[l[1]])
            return old != self.v[l[1]]
        if l[0] == "cat":
            ch = False
            for x in reversed(l[1]):
                w = self.lw(x)
                ch |= self.put(x, val & mask(w))
                val >>= w
            return ch
        n = l[1][1]
        i = ev(l[2], self)[0]
        if n in self.mem:
            val &= mask(self.w[n])
            old = self.mem[n].get(i, 0)
            self.mem[n][i] = val
            return old != val
        lo, k = (i, 1) if l[0] == "bit" else ((ev(l[3], self)[0], i - ev(l[3], self)[0] + 1) if l[0] == "slice" else (i, ev(l[3], self)[0]))
        old = self.v[n]
        self.v[n] = old & ~(mask(k) << lo) | (val & mask(k)) << lo
        return old != self.v[n]

    def lw(self, l):
        return width(l, self)

    def run(self, b, nb=False):
        k = b[0]
        ch = False
        if k == "blk":
            for x in b[1]:
                ch |= self.run(x, nb)
        elif k == "if":
            if ev(b[1], self)[0]:
                ch |= self.run(b[2], nb)
            elif b[3]:
                ch |= self.run(b[3], nb)
        elif k == "case":
            v, w = ev(b[1], self)
            bits = format(v, "0%db" % w)
            for pat, x in b[2]:
                if pat is None or all(p in "?zZ" or p == q for p, q in zip(pat, bits)):
                    ch |= self.run(x, nb)
                    break
        elif k == "asg":
            val = ev(b[2], self, self.lw(b[1]))[0]
            if b[3] and nb:
                l = b[1]
                if l[0] == "bit":
                    l = ("bit", l[1], ("num", 32, ev(l[2], self)[0], False))
                self.nba.append((l, val))
            else:
                ch |= self.put(b[1], val)
        return ch

    def settle(self):
        for _ in range(1000):
            ch = False
            for l, e in self.m["asg"]:
                ch |= self.put(l, ev(e, self, self.lw(l))[0])
            for b in self.m["comb"]:
                ch |= self.run(b)
            for s, n, cs in self.sub:
                for d, p in s.m["ports"]:
                    if d == "input" and cs.get(p) is not None:
                        nv = ev(cs[p], self, s.w[p])[0] & mask(s.w[p])
                        if s.v[p] != nv:
                            s.v[p] = nv
                            ch = True
                s.settle()
                for d, p in s.m["ports"]:
                    if d == "output" and cs.get(p) is not None:
                        ch |= self.put(cs[p], s.v[p])
            if not ch:
                return
        raise Exception("does not settle")

    def clocks(self):
        r = [ev(c, self)[0] & 1 for c, _ in self.m["ff"]]
        for s, _, _ in self.sub:
            r += s.clocks()
        return r

    def edge(self, old):
        for c, b in self.m["ff"]:
            o = old.pop(0)
            if not o and ev(c, self)[0] & 1:
                self.run(b, True)
        for s, _, _ in self.sub:
            s.edge(old)

    def commit(self):
        for l, v in self.nba:
            self.put(l, v)
        self.nba = []
        for s, _, _ in self.sub:
            s.commit()

    def set(self, **kw):
        """set inputs; rising clocks update registers"""
        old = self.clocks()
        for k, v in kw.items():
            if k in self.w:
                self.v[k] = v & mask(self.w[k])
        self.settle()
        self.edge(old)
        self.commit()
        self.settle()

    def clock(self, clk="clk_i"):
        self.set(**{clk: 1})
        self.set(**{clk: 0})

    def get(self, n="output__"):
        return self.v[n]


def compile(src, *flags):
    """compile source text with the built compiler: (exit code, Verilog path, messages)"""
    d = tempfile.mkdtemp()
    f, o = os.path.join(d, "main.spade"), os.path.join(d, "out.sv")
    open(f, "w").write(src)
    p = subprocess.run(["/repo/target/debug/spade", f, "-o", o, "--no-color", *flags], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True)
    return p.returncode, o, p.stdout


def design(src, *flags):
    c, o, m = compile(src, *flags)
    if c != 0:
        print(m)
        sys.exit("the program does not compile")
    return load(o)


def expect(what, got, want):
    if got != want:
        print("%s: got %s, expected %s" % (what, got, want))
        sys.exit(1)
