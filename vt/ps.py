"""A small PostScript interpreter: the observer that turns an output file into a
trace of what a printer would draw (strokes, arcs, glyph strings, page breaks).

It implements the operators a drawing program may sensibly use, not just the ones
seen in today's output, so that an equivalent way of writing the same page gives
the same trace.  Anything malformed raises PSError."""
import math


class PSError(Exception):
    pass


class Name(str):
    __slots__ = ()


class Lit(str):
    __slots__ = ()


class Proc(list):
    pass


class Mark:
    pass


MARK = Mark()
DMARK = Mark()

WS = b" \t\r\n\f\0"
DELIM = b"()<>[]{}/%"


def tokens(b):
    i, n = 0, len(b)
    while i < n:
        c = b[i]
        if c in WS:
            i += 1
        elif c == 0x25:                                   # %
            while i < n and b[i] not in b"\r\n\f":
                i += 1
        elif c == 0x28:                                   # (
            i, s = _string(b, i)
            yield s
        elif c == 0x3C:                                   # <
            if b[i:i + 2] == b"<<":
                yield Name("<<")
                i += 2
            else:
                j = b.find(b">", i)
                if j < 0:
                    raise PSError("unterminated hex string")
                h = bytes(x for x in b[i + 1:j] if x not in WS)
                if len(h) % 2:
                    h += b"0"
                try:
                    yield bytes.fromhex(h.decode("ascii"))
                except ValueError:
                    raise PSError("bad hex string")
                i = j + 1
        elif c == 0x3E:
            if b[i:i + 2] != b">>":
                raise PSError("stray >")
            yield Name(">>")
            i += 2
        elif c in b"[]{}":
            yield Name(chr(c))
            i += 1
        elif c == 0x29:
            raise PSError("unbalanced ) at byte %d" % i)
        elif c == 0x2F:                                   # /
            j = i + 1
            while j < n and b[j] not in WS and b[j] not in DELIM:
                j += 1
            yield Lit(b[i + 1:j].decode("latin1"))
            i = j
        else:
            j = i
            while j < n and b[j] not in WS and b[j] not in DELIM:
                j += 1
            w = b[i:j].decode("latin1")
            i = j
            yield _number(w)


def _number(w):
    t = w[1:] if w[:1] in "+-" else w
    if t and t[0] in "0123456789.":
        try:
            return int(w)
        except ValueError:
            pass
        ok = all(ch in "0123456789.eE+-" for ch in t)
        if ok:
            try:
                f = float(w)
            except ValueError:
                return Name(w)
            if not math.isfinite(f) or abs(f) > 3.5e38:
                raise PSError("limitcheck: real " + w)
            return f
    return Name(w)


def _string(b, i):
    n, depth, out = len(b), 1, bytearray()
    i += 1
    while i < n:
        c = b[i]
        if c == 0x5C:
            i += 1
            if i >= n:
                break
            c = b[i]
            if c in b"nrtbf":
                out += {0x6E: b"\n", 0x72: b"\r", 0x74: b"\t", 0x62: b"\b", 0x66: b"\f"}[c]
                i += 1
            elif c in b"01234567":
                k = i
                while k < i + 3 and k < n and b[k] in b"01234567":
                    k += 1
                out.append(int(b[i:k], 8) & 255)
                i = k
            elif c == 0x0D:
                i += 2 if b[i + 1:i + 2] == b"\n" else 1
            elif c == 0x0A:
                i += 1
            else:
                out.append(c)
                i += 1
            continue
        if c == 0x28:
            depth += 1
        elif c == 0x29:
            depth -= 1
            if depth == 0:
                return i + 1, bytes(out)
        elif c == 0x0D:                                   # end of line in a string
            i += 2 if b[i + 1:i + 2] == b"\n" else 1
            out.append(0x0A)
            continue
        out.append(c)
        i += 1
    raise PSError("unterminated string")


class Text:
    __slots__ = ("s", "anchor", "at", "width", "size", "font")

    def __repr__(self):
        return "Text(%r @%s)" % (self.s, self.anchor)


class Page:
    def __init__(self):
        self.lines = []       # (x0,y0,x1,y1) stroked straight pieces
        self.arcs = []        # (cx,cy,r,a0,a1) counter clockwise, degrees
        self.texts = []
        self.size = None
        self.order = []
        self.widths = set()   # line widths stroked with


COURIER = [-23, -250, 715, 805]
COURIER_W = 600.0


def encode_font(name):
    return {"FontName": name, "FontBBox": Proc(COURIER), "scale": 1.0,
            "FontType": 1, "FontMatrix": [0.001, 0, 0, 0.001, 0, 0]}


class Interp:
    MAX_OPS = 3_000_000

    def __init__(self):
        self.st = []
        self.dicts = [{}]
        self.nbase = 1
        self.pages = []
        self.page = Page()
        self.dirty = False
        self.path = []          # subpaths' segments: ('l',..)/('a',..)
        self.cur = None
        self.sub0 = None
        self.anchor = None
        self.ctm = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)
        self.font = None
        self.gs = []
        self.lw = 1.0
        self.nops = 0
        self.size = None

    # -- helpers
    def pop(self, *types):
        if not self.st:
            raise PSError("stackunderflow")
        v = self.st.pop()
        if types and not isinstance(v, types):
            raise PSError("typecheck: %r" % (v,))
        return v

    def num(self):
        v = self.pop()
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise PSError("typecheck: number expected, got %r" % (v,))
        return v

    def nums(self, n):
        r = [self.num() for _ in range(n)]
        return r[::-1]

    def tr(self, x, y):
        a, b, c, d, e, f = self.ctm
        return (a * x + c * y + e, b * x + d * y + f)

    def concat(self, m):
        a, b, c, d, e, f = m
        A, B, C, D, E, F = self.ctm
        self.ctm = (a * A + b * C, a * B + b * D, c * A + d * C, c * B + d * D,
                    e * A + f * C + E, e * B + f * D + F)

    def need_cur(self):
        if self.cur is None:
            raise PSError("nocurrentpoint")

    # -- running
    def run(self, data):
        build = []             # stack of Procs being read
        for t in tokens(data):
            if isinstance(t, Name):
                if t == "{":
                    build.append(Proc())
                    continue
                if t == "}":
                    if not build:
                        raise PSError("unmatched }")
                    p = build.pop()
                    if build:
                        build[-1].append(p)
                    else:
                        self.st.append(p)
                    continue
            if build:
                build[-1].append(t)
            else:
                self.exec(t)
        if build:
            raise PSError("unmatched {")

    def exec(self, t):
        self.nops += 1
        if self.nops > self.MAX_OPS:
            raise PSError("runs too long")
        if isinstance(t, Name):
            self.name(t)
        else:
            self.st.append(t)

    def call(self, p):
        for t in p:
            self.exec(t)

    def name(self, t):
        for d in reversed(self.dicts):
            if t in d:
                v = d[t]
                if isinstance(v, Proc):
                    self.call(v)
                else:
                    self.st.append(v)
                return
        f = getattr(self, "op_" + OPS.get(str(t), str(t)), None)
        if f is None:
            raise PSError("undefined: " + str(t)[:60])
        f()

    # -- stack, arithmetic
    def op_pop(self): self.pop()
    def op_dup(self):
        v = self.pop(); self.st += [v, v]
    def op_exch(self):
        b, a = self.pop(), self.pop(); self.st += [b, a]
    def op_index(self):
        n = self.num()
        if n < 0 or n >= len(self.st): raise PSError("rangecheck")
        self.st.append(self.st[-1 - n])
    def op_copy(self):
        n = self.num()
        if n < 0 or n > len(self.st): raise PSError("rangecheck")
        if n: self.st += self.st[-n:]
    def op_roll(self):
        j, n = self.num(), self.num()
        if n < 0 or n > len(self.st): raise PSError("stackunderflow in roll")
        if n:
            j %= n
            s = self.st[-n:]
            self.st[-n:] = s[-j:] + s[:-j] if j else s
    def op_clear(self): self.st.clear()
    def op_count(self): self.st.append(len(self.st))
    def op_add(self):
        a, b = self.nums(2); self.st.append(a + b)
    def op_sub(self):
        a, b = self.nums(2); self.st.append(a - b)
    def op_mul(self):
        a, b = self.nums(2); self.st.append(a * b)
    def op_div(self):
        a, b = self.nums(2)
        if b == 0: raise PSError("undefinedresult")
        self.st.append(a / b)
    def op_idiv(self):
        a, b = self.nums(2)
        if b == 0: raise PSError("undefinedresult")
        self.st.append(int(a / b))
    def op_neg(self): self.st.append(-self.num())
    def op_abs(self): self.st.append(abs(self.num()))
    def op_sqrt(self): self.st.append(math.sqrt(self.num()))
    def op_true(self): self.st.append(True)
    def op_false(self): self.st.append(False)
    def op_null(self): self.st.append(None)
    # -- arrays, dicts
    def op_lbr(self): self.st.append(MARK)
    def op_mark(self): self.st.append(MARK)
    def op_rbr(self):
        r = []
        while True:
            v = self.pop()
            if v is MARK: break
            r.append(v)
        self.st.append(r[::-1])
    def op_ldict(self): self.st.append(DMARK)
    def op_rdict(self):
        r = []
        while True:
            v = self.pop()
            if v is DMARK: break
            r.append(v)
        r = r[::-1]
        if len(r) % 2: raise PSError("rangecheck >>")
        self.st.append({str(r[i]): r[i + 1] for i in range(0, len(r), 2)})
    def op_dict(self): self.num(); self.st.append({})
    def op_def(self):
        v = self.pop(); k = self.pop(Lit, str)
        self.dicts[-1][str(k)] = v
    def op_bind(self): pass
    def op_begin(self): self.dicts.append(self.pop(dict))
    def op_end(self):
        if len(self.dicts) <= self.nbase: raise PSError("dictstackunderflow")
        self.dicts.pop()
    def op_aload(self):
        a = self.pop(list); self.st += list(a) + [a]
    def op_exec(self): self.call(self.pop(Proc))
    def op_if(self):
        p = self.pop(Proc); b = self.pop(bool)
        if b: self.call(p)
    def op_ifelse(self):
        q = self.pop(Proc); p = self.pop(Proc); b = self.pop(bool)
        self.call(p if b else q)
    def op_repeat(self):
        p = self.pop(Proc); n = self.num()
        for _ in range(n): self.call(p)
    def op_length(self): self.st.append(len(self.pop(bytes, list, dict)))
    def op_load(self):
        k = str(self.pop(Lit))
        for d in reversed(self.dicts):
            if k in d: self.st.append(d[k]); return
        raise PSError("undefined: " + k)
    # -- graphics state
    def op_gsave(self):
        self.gs.append((self.ctm, self.font, self.lw, list(self.path), self.cur, self.sub0, self.anchor))
    def op_grestore(self):
        if self.gs:
            self.ctm, self.font, self.lw, self.path, self.cur, self.sub0, self.anchor = self.gs.pop()
    def op_setlinewidth(self): self.lw = self.num()
    def op_setlinecap(self): self.num()
    def op_setlinejoin(self): self.num()
    def op_setgray(self): self.num()
    def op_setrgbcolor(self): self.nums(3)
    def op_setdash(self): self.num(); self.pop(list)
    def op_translate(self):
        x, y = self.nums(2); self.concat((1, 0, 0, 1, x, y))
    def op_scale(self):
        x, y = self.nums(2); self.concat((x, 0, 0, y, 0, 0))
    def op_rotate(self):
        a = math.radians(self.num()); c, s = math.cos(a), math.sin(a)
        self.concat((c, s, -s, c, 0, 0))
    def op_setpagedevice(self):
        d = self.pop(dict)
        # erases the page and starts afresh
        self.page = Page()
        self.dirty = False
        self.op_newpath()
        self.lw = 1.0
        self.ctm = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)
        if "PageSize" in d:
            ps = d["PageSize"]
            if not (isinstance(ps, list) and len(ps) == 2): raise PSError("bad PageSize")
            self.size = tuple(float(x) for x in ps)
    # -- paths
    def op_newpath(self): self.path = []; self.cur = self.sub0 = None
    def op_moveto(self):
        x, y = self.nums(2); self.cur = self.sub0 = self.tr(x, y); self.anchor = self.cur
    def _delta(self, x, y):
        a, b, c, d, _, _ = self.ctm
        return (self.cur[0] + a * x + c * y, self.cur[1] + b * x + d * y)
    def op_rmoveto(self):
        self.need_cur(); x, y = self.nums(2); self.cur = self.sub0 = self._delta(x, y)
    def _lineto(self, p):
        self.path.append(("l", *self.cur, *p)); self.cur = p
    def op_lineto(self):
        self.need_cur(); x, y = self.nums(2); self._lineto(self.tr(x, y))
    def op_rlineto(self):
        self.need_cur(); x, y = self.nums(2); self._lineto(self._delta(x, y))
    def op_closepath(self):
        if self.cur is not None and self.cur != self.sub0: self._lineto(self.sub0)
    def _arc(self, cw):
        x, y, r, a0, a1 = self.nums(5)
        if r < 0: raise PSError("rangecheck: negative radius")
        if cw:
            while a1 > a0: a1 -= 360
            lo, hi = a1, a0
        else:
            while a1 < a0: a1 += 360
            lo, hi = a0, a1
        p0 = (x + r * math.cos(math.radians(a0)), y + r * math.sin(math.radians(a0)))
        p1 = (x + r * math.cos(math.radians(a1)), y + r * math.sin(math.radians(a1)))
        if self.cur is not None: self._lineto(self.tr(*p0))
        else: self.sub0 = self.tr(*p0)
        A, B, C, D, _, _ = self.ctm
        k = math.hypot(A, B)
        cx, cy = self.tr(x, y)
        rot = math.degrees(math.atan2(B, A))
        self.path.append(("a", cx, cy, r * k, lo + rot, hi + rot))
        self.cur = self.tr(*p1)
    def op_arc(self): self._arc(False)
    def op_arcn(self): self._arc(True)
    def op_currentpoint(self): self.need_cur(); self.st += list(self.cur)
    def op_stroke(self):
        if self.path:
            self.page.widths.add(round(float(self.lw) * math.sqrt(abs(self.ctm[0] * self.ctm[3] - self.ctm[1] * self.ctm[2])), 6))
        for s in self.path:
            if s[0] == "l":
                self.page.lines.append(s[1:])
            else:
                self.page.arcs.append(s[1:])
            self.page.order.append(s[0])
        self.dirty = True
        self.op_newpath()
    def op_fill(self): self.op_newpath()
    # -- text
    def op_findfont(self): self.st.append(encode_font(str(self.pop(Lit, bytes))))
    def op_scalefont(self):
        k = self.num(); f = dict(self.pop(dict)); f["scale"] = f.get("scale", 1.0) * k
        self.st.append(f)
    def op_setfont(self): self.font = self.pop(dict)
    def op_selectfont(self):
        k = self.num(); f = encode_font(str(self.pop(Lit))); f["scale"] = k; self.font = f
    def op_currentfont(self):
        if self.font is None: raise PSError("no font")
        self.st.append(self.font)
    def width(self, s): return len(s) * COURIER_W / 1000 * self.font["scale"]
    def op_stringwidth(self):
        s = self.pop(bytes)
        if self.font is None: raise PSError("no font")
        self.st += [self.width(s), 0.0]
    def op_show(self):
        s = self.pop(bytes)
        self.need_cur()
        if self.font is None: raise PSError("no font")
        t = Text()
        t.s, t.at, t.anchor, t.width, t.size, t.font = (
            s, self.cur, self.anchor, self.width(s), self.font["scale"], self.font["FontName"])
        self.page.texts.append(t)
        self.page.order.append("t")
        self.cur = (self.cur[0] + t.width, self.cur[1])
        self.dirty = True
    def op_showpage(self):
        self.page.size = self.size
        self.pages.append(self.page)
        self.page = Page()
        self.dirty = False
        self.op_newpath()
        self.lw = 1.0         # initgraphics
        self.ctm = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


OPS = {"[": "lbr", "]": "rbr", "<<": "ldict", ">>": "rdict"}


def interpret(data):
    """bytes -> [Page]; raises PSError if a printer could not run it."""
    it = Interp()
    it.run(data)
    if it.st:
        raise PSError("operands left on the stack: %r" % (it.st[:5],))
    if len(it.dicts) != it.nbase:
        raise PSError("dictionaries left open")
    if it.dirty or it.page.lines or it.page.texts or it.page.arcs:
        raise PSError("marks after the last showpage")
    if it.gs:
        raise PSError("gsave without grestore")
    return it.pages
