"""Parser for the textual LLVM 18 IR subset that clang emits for the real sources (opaque pointers).
Function bodies are parsed lazily."""
import re

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'n', 'el', 'fields', 'packed', 'name', '_sz', '_al', '_offs')
    def __init__(self, k, n=None, el=None, fields=None, packed=False, name=None):
        self.k = k; self.n = n; self.el = el; self.fields = fields; self.packed = packed; self.name = name
        self._sz = None; self._al = None; self._offs = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.el)
        if self.k == 'struct': return '{' + ','.join(map(repr, self.fields or [])) + '}'
        if self.k == 'named': return '%' + self.name
        return self.k

VOID = T('void'); PTR = T('ptr'); FLOAT = T('float'); DOUBLE = T('double'); LABEL = T('label'); META = T('metadata')
X86FP80 = T('x86_fp80'); TOKEN = T('token')
_ints = {}
def INT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = T('int', n)
    return t

TOK = re.compile(r'''\s*(
   ;[^\n]*
 | "(?:[^"])*"
 | c"(?:[^"])*"
 | [%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)
 | ![a-zA-Z0-9._]*
 | \#\d+
 | \.\.\.
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+
 | [a-zA-Z_][-a-zA-Z$._0-9]*
 | [\[\]{}()<>,=*:|]
)''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match(s, pos)
    while m:
        t = m.group(1)
        if not t.startswith(';'):
            out.append(t)
        pos = m.end()
        m = TOK.match(s, pos)
    if s[pos:].strip():
        raise Unsupported('tokenize: ' + s[pos:pos + 60])
    return out

def unq(name):
    """%"foo" -> %foo"""
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name

ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly writable dead_on_unwind signext zeroext inreg returned
 immarg nest noundef swiftself swifterror local_unnamed_addr unnamed_addr dso_local external internal private linkonce_odr linkonce weak weak_odr
 available_externally hidden protected default thread_local constant global fastcc ccc coldcc tail musttail notail comdat
 nnan ninf nsz arcp contract afn reassoc fast nuw nsw exact inbounds volatile disjoint nneg samesign initializes noinline nofree inrange mustprogress willreturn nounwind immarg allocptr'''.split())

class Tk:
    __slots__ = ('t', 'i', 'm')
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        if not self.accept(x):
            raise Unsupported('expected %r at %r in %r' % (x, self.t[self.i:self.i + 5], ' '.join(self.t)[:200]))
    def done(self):
        return self.i >= len(self.t)
    def skip_attrs(self):
        while self.i < len(self.t):
            x = self.t[self.i]
            if x in ATTRS:
                self.i += 1
                if x == 'comdat' and self.peek() == '(':
                    self.skip_paren()
                elif x in ('initializes', 'inrange') and self.peek() == '(':
                    self.skip_paren()
            elif x in ('align',):
                self.i += 2
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca', 'elementtype', 'memory', 'allocsize', 'range', 'captures', 'nofpclass', 'preallocated'):
                self.i += 1
                self.skip_paren()
            elif x.startswith('#') or x.startswith('"'):
                self.i += 1
                if self.peek() == '=' and x.startswith('"'):
                    self.i += 2
            else:
                break
    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1
    # -------- types
    def is_type_start(self):
        x = self.peek()
        return x is not None and (x in ('void', 'ptr', 'float', 'double', 'label', 'metadata', 'x86_fp80', '[', '{', '<', 'token', 'half', 'opaque') or re.fullmatch(r'i\d+', x) is not None or x[0] == '%')
    def type(self):
        x = self.next()
        if x == 'void': t = VOID
        elif x == 'ptr': t = PTR
        elif x == 'float': t = FLOAT
        elif x == 'double': t = DOUBLE
        elif x == 'label': t = LABEL
        elif x == 'metadata': t = META
        elif x == 'x86_fp80': t = X86FP80
        elif x == 'token': t = TOKEN
        elif x == 'opaque': t = T('opaque')
        elif x[0] == 'i' and x[1:].isdigit(): t = INT(int(x[1:]))
        elif x[0] == '%': t = T('named', name=unq(x)[1:])
        elif x == '[':
            n = int(self.next()); self.expect('x'); el = self.type(); self.expect(']'); t = T('arr', n, el)
        elif x == '<':
            if self.peek() == '{':
                self.next(); f = self._fields('}'); self.expect('>'); t = T('struct', fields=f, packed=True)
            else:
                n = int(self.next()); self.expect('x'); el = self.type(); self.expect('>'); t = T('vec', n, el)
        elif x == '{':
            t = T('struct', fields=self._fields('}'))
        else:
            raise Unsupported('type ' + x + ' in ' + ' '.join(self.t)[:120])
        # function type?
        if self.peek() == '(' and t.k != 'x':
            # could be a function type in call; handled by callers looking ahead
            pass
        return t
    def _fields(self, close):
        f = []
        if self.accept(close): return f
        while True:
            f.append(self.type())
            if self.accept(close): return f
            self.expect(',')
    # -------- values/constants.  representation: ('l',name) local, ('g',name) global, ('c',...) const
    def value(self, ty):
        self.skip_attrs()
        x = self.next()
        if x[0] == '%': return ('l', unq(x)[1:])
        if x[0] == '@': return ('g', unq(x)[1:])
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef', ty)
        if x == 'true': return ('i', 1)
        if x == 'false': return ('i', 0)
        if x == 'none': return ('undef', ty)
        if x == 'zeroinitializer': return ('zero', ty)
        if x[0] == 'c' and len(x) > 1 and x[1] == '"': return ('str', decode_cstr(x[2:-1]))
        if x == 'dso_local_equivalent' or x == 'no_cfi': return self.value(ty)
        if x == '[' or (x == '<' and self.peek() != '{') or x == '{' or x == '<':
            packed = False
            close = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next(); close = '}'; packed = True
            els = []
            if not self.accept(close):
                while True:
                    et = self.type(); ev = self.value(et); els.append((et, ev))
                    if self.accept(close): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', els)
        if x in ('getelementptr',):
            self.skip_attrs(); self.expect('(')
            bt = self.type(); self.expect(',')
            ops = []
            while True:
                self.skip_attrs()
                t = self.type(); ops.append((t, self.value(t)))
                if self.accept(')'): break
                self.expect(',')
            return ('cgep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('('); t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('ccast', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
            self.skip_attrs(); self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cbin', x, t, a, b)
        if x == 'icmp':
            p = self.next(); self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('ccmp', p, t, a, b)
        if x == 'select':
            self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(','); t3 = self.type(); c = self.value(t3); self.expect(')')
            return ('csel', a, b, c, t2)
        if ty.k in ('float', 'double', 'x86_fp80'):
            if x.startswith('0x'):
                return ('fhex', x)
            return ('f', float(x))
        try:
            return ('i', int(x))
        except ValueError:
            raise Unsupported('value ' + x + ' :: ' + ' '.join(self.t)[:160])
    def tv(self):
        self.skip_attrs()
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

def decode_cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

class Instr:
    __slots__ = ('op', 'd', 't', 'a', 'x', 'line')
    def __init__(self, op, d, t=None, a=None, x=None):
        self.op = op; self.d = d; self.t = t; self.a = a; self.x = x
    def __repr__(self):
        return '%s=%s %s %s %s' % (self.d, self.op, self.t, self.a, self.x)

class Fn:
    __slots__ = ('name', 'params', 'ret', 'raw', 'blocks', 'order', 'parsed', 'vararg', 'info', 'attrs')

class Module:
    def __init__(self, text):
        self.named = {}
        self.globals = {}   # name -> (type, initializer tokens or None, isconst)
        self.fns = {}
        self.decls = {}
        self.attrgroups = {}
        self.aliases = {}
        self._load(text)

    def _load(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._def_header(L, lines[i + 1:j])
                i = j + 1; continue
            if L.startswith('%') and ' = type ' in L:
                nm, rest = L.split(' = type ', 1)
                self.named[unq(nm)[1:]] = rest
            elif L.startswith('@'):
                self._global(L)
            elif L.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', L)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"': nm = nm[1:-1]
                    self.decls[nm] = L
            elif L.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', L)
                if m:
                    self.attrgroups[m.group(1)] = m.group(2)
            i += 1

    def _global(self, L):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', L)
        name = unq(m.group(1))[1:]
        rest = m.group(2)
        self.globals[name] = [rest, None]

    def global_def(self, name):
        g = self.globals[name]
        if g[1] is None:
            tk = Tk(tokenize(strip_meta(g[0])), self)
            const = False; ext = False; alias = False
            while True:
                x = tk.peek()
                if x == 'constant': const = True
                if x == 'external': ext = True
                if x == 'alias': alias = True; tk.next(); break
                if x in ('thread_local', 'addrspace'):
                    tk.next()
                    if tk.peek() == '(': tk.skip_paren()
                    continue
                if x in ATTRS:
                    tk.next()
                    if x in ('constant', 'global'):
                        break
                    continue
                break
            t = tk.type()
            if alias:
                if tk.peek() == '(': tk.skip_paren()
                tk.expect(','); tk.type(); v = tk.value(PTR)
                g[1] = (t, ('alias', v), const)
            else:
                init = None
                if not ext and not tk.done() and tk.peek() != ',':
                    init = tk.value(t)
                g[1] = (t, init, const)
        return g[1]

    def _def_header(self, L, body):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', L)
        nm = m.group(1)
        if nm[0] == '"': nm = nm[1:-1]
        f = Fn(); f.name = nm; f.raw = (L, body); f.parsed = False; f.info = None
        self.fns[nm] = f

    def resolve(self, t):
        while t.k == 'named':
            d = self.named.get(t.name)
            if d is None: raise Unsupported('type ' + t.name)
            if isinstance(d, str):
                tk = Tk(tokenize(d), self)
                d = tk.type()
                d.name = t.name
                self.named[t.name] = d
            t = d
        return t

    def sizeof(self, t):
        if t._sz is None:
            self._layout(t)
        return t._sz
    def alignof(self, t):
        if t._sz is None:
            self._layout(t)
        return t._al
    def offs(self, t):
        t = self.resolve(t)
        if t._sz is None:
            self._layout(t)
        return t._offs
    def _layout(self, t):
        r = self.resolve(t)
        if r is not t:
            t._sz = self.sizeof(r); t._al = self.alignof(r); return
        if t.k == 'int':
            b = (t.n + 7) // 8
            p = 1
            while p < b: p *= 2
            t._sz = p; t._al = min(p, 16)
            if t.n == 128: t._sz = 16; t._al = 16
        elif t.k == 'ptr': t._sz = 8; t._al = 8
        elif t.k == 'float': t._sz = 4; t._al = 4
        elif t.k == 'double': t._sz = 8; t._al = 8
        elif t.k == 'x86_fp80': t._sz = 16; t._al = 16
        elif t.k == 'arr': t._al = self.alignof(t.el); t._sz = self.sizeof(t.el) * t.n
        elif t.k == 'vec': t._sz = self.sizeof(t.el) * t.n if t.el.n != 1 else (t.n + 7) // 8; t._al = t._sz
        elif t.k == 'struct':
            o = 0; al = 1; offs = []
            for f in t.fields:
                a = 1 if t.packed else self.alignof(f)
                o = (o + a - 1) // a * a
                offs.append(o)
                o += self.sizeof(f)
                al = max(al, a)
            t._sz = (o + al - 1) // al * al; t._al = al; t._offs = offs
        elif t.k == 'opaque': t._sz = 0; t._al = 1
        else: raise Unsupported('layout of ' + t.k)

    def fn(self, name):
        f = self.fns.get(name)
        if f is None: return None
        if not f.parsed:
            parse_fn(self, f)
        return f

_meta = re.compile(r',\s*![a-zA-Z0-9._]+ (?:![0-9]+|!\{\}|!DI\w+\([^)]*\))')
def strip_meta(s):
    if '!' in s:
        s = _meta.sub('', s)
    # strip trailing comment "; preds = "
    return s

def parse_fn(mod, f):
    L, body = f.raw
    # header
    i = L.index('@' + (f.name if ('@' + f.name + '(') in L else '"' + f.name + '"'))
    pre = L[7:i]
    tk = Tk(tokenize(pre), mod); tk.skip_attrs()
    f.ret = tk.type()
    rest = L[i:]
    tk = Tk(tokenize(rest.rstrip('{ ')), mod)
    tk.next(); tk.expect('(')
    f.params = []; f.vararg = False
    idx = 0
    if not tk.accept(')'):
        while True:
            if tk.accept('...'):
                f.vararg = True; tk.expect(')'); break
            t = tk.type(); tk.skip_attrs()
            if tk.peek() and tk.peek()[0] == '%':
                nm = unq(tk.next())[1:]
            else:
                nm = str(idx)
            idx += 1
            f.params.append((t, nm))
            if tk.accept(')'): break
            tk.expect(',')
    f.attrs = ' '.join(tk.t[tk.i:])
    # blocks
    blocks = {}; order = []
    cur = None
    # join multi-line instrs (invoke, switch, landingpad)
    joined = []
    k = 0; n = len(body)
    while k < n:
        s = body[k]
        st = s.strip()
        if not st or st.startswith(';'):
            k += 1; continue
        if s[0] != ' ':
            joined.append(s); k += 1; continue
        if st.startswith('switch ') and st.endswith('['):
            while not body[k].strip().startswith(']'):
                k += 1; st += ' ' + body[k].strip()
            k += 1; joined.append(' ' + st); continue
        if re.match(r'(%\S+ = |%"[^"]*" = )?invoke ', st):
            k += 1; st += ' ' + body[k].strip(); k += 1; joined.append(' ' + st); continue
        if ' = landingpad ' in st:
            k += 1
            while k < n and re.match(r'\s+(cleanup|catch |filter )', body[k]):
                st += ' ' + body[k].strip(); k += 1
            joined.append(' ' + st); continue
        joined.append(' ' + st); k += 1
    for s in joined:
        if s[0] != ' ':
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            nm = m.group(1)
            if nm[0] == '"': nm = nm[1:-1]
            cur = []; blocks[nm] = cur; order.append(nm)
            continue
        if cur is None:
            # unnamed entry block: number is count of params
            nm = str(idx)
            cur = []; blocks[nm] = cur; order.append(nm)
        ins = parse_instr(mod, s.strip())
        if ins is not None:
            cur.append(ins)
    f.blocks = blocks; f.order = order; f.parsed = True

BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())

def parse_instr(mod, s):
    s = strip_meta(s)
    tk = Tk(tokenize(s), mod)
    d = None
    if tk.peek()[0] == '%' and tk.peek(1) == '=':
        d = unq(tk.next())[1:]; tk.next()
    while tk.peek() in ('tail', 'musttail', 'notail'):
        tk.next()
    op = tk.next()
    if op in BINOPS:
        flags = []
        while tk.peek() in ATTRS: flags.append(tk.next())
        t = tk.type(); a = tk.value(t); tk.expect(','); b = tk.value(t)
        return Instr(op, d, t, (a, b), flags)
    if op in ('icmp', 'fcmp'):
        while tk.peek() in ATTRS: tk.next()
        p = tk.next()
        t = tk.type(); a = tk.value(t); tk.expect(','); b = tk.value(t)
        return Instr(op, d, t, (a, b), p)
    if op in CASTS:
        while tk.peek() in ATTRS: tk.next()
        t = tk.type(); v = tk.value(t); tk.expect('to'); t2 = tk.type()
        return Instr(op, d, t2, (v,), t)
    if op == 'fneg':
        while tk.peek() in ATTRS: tk.next()
        t = tk.type(); return Instr(op, d, t, (tk.value(t),))
    if op == 'freeze':
        t = tk.type(); return Instr(op, d, t, (tk.value(t),))
    if op == 'load':
        if tk.accept('atomic'): pass
        tk.accept('volatile')
        t = tk.type(); tk.expect(','); tk.type(); p = tk.value(PTR)
        return Instr(op, d, t, (p,))
    if op == 'store':
        tk.accept('atomic'); tk.accept('volatile')
        t = tk.type(); v = tk.value(t); tk.expect(','); tk.type(); p = tk.value(PTR)
        return Instr(op, d, t, (v, p))
    if op == 'getelementptr':
        tk.skip_attrs()
        bt = tk.type(); tk.expect(',')
        ops = []
        while True:
            t = tk.type(); ops.append((t, tk.value(t)))
            if not tk.accept(','): break
        return Instr(op, d, PTR, ops, bt)
    if op == 'alloca':
        tk.accept('inalloca')
        t = tk.type(); cnt = None
        while tk.accept(','):
            if tk.accept('align'): tk.next()
            else:
                ct = tk.type(); cnt = (ct, tk.value(ct))
        return Instr(op, d, t, cnt)
    if op == 'select':
        while tk.peek() in ATTRS: tk.next()
        ct = tk.type(); c = tk.value(ct); tk.expect(','); t = tk.type(); a = tk.value(t); tk.expect(','); t2 = tk.type(); b = tk.value(t2)
        return Instr(op, d, t, (c, a, b), ct)
    if op == 'phi':
        while tk.peek() in ATTRS: tk.next()
        t = tk.type(); inc = []
        while True:
            tk.expect('['); v = tk.value(t); tk.expect(','); b = unq(tk.next())[1:]; tk.expect(']')
            inc.append((v, b))
            if not tk.accept(','): break
        return Instr(op, d, t, inc)
    if op == 'br':
        t = tk.type()
        if t.k == 'label':
            return Instr('br', None, None, unq(tk.next())[1:])
        c = tk.value(t); tk.expect(','); tk.type(); a = unq(tk.next())[1:]; tk.expect(','); tk.type(); b = unq(tk.next())[1:]
        return Instr('condbr', None, t, c, (a, b))
    if op == 'switch':
        t = tk.type(); v = tk.value(t); tk.expect(','); tk.type(); dflt = unq(tk.next())[1:]
        tk.expect('['); cases = []
        while not tk.accept(']'):
            ct = tk.type(); cv = tk.value(ct); tk.expect(','); tk.type(); cases.append((cv[1], unq(tk.next())[1:]))
        return Instr(op, None, t, v, (dflt, cases))
    if op == 'ret':
        t = tk.type()
        return Instr(op, None, t, None if t.k == 'void' else tk.value(t))
    if op == 'unreachable':
        return Instr(op, None)
    if op == 'resume':
        t = tk.type(); return Instr(op, None, t, tk.value(t))
    if op in ('call', 'invoke'):
        tk.skip_attrs()
        rt = tk.type()
        if tk.peek() == '(':   # function type given explicitly
            tk.skip_paren()
        tk.skip_attrs()
        if tk.peek() == 'asm':
            return Instr('asm', d, rt)
        callee = tk.value(PTR)
        tk.expect('(')
        args = []
        if not tk.accept(')'):
            while True:
                t = tk.type()
                if t.k == 'metadata':
                    # skip metadata operand
                    depth = 0
                    while True:
                        x = tk.peek()
                        if depth == 0 and x in (',', ')'): break
                        if x == '(': depth += 1
                        if x == ')': depth -= 1
                        tk.next()
                    args.append((t, ('undef', t)))
                else:
                    args.append((t, tk.value(t)))
                if tk.accept(')'): break
                tk.expect(',')
        attrs = []
        while not tk.done() and tk.peek().startswith('#'):
            attrs.append(tk.next())
        nr = any('noreturn' in mod.attrgroups.get(a, '') for a in attrs)
        tgt = None
        if op == 'invoke':
            while tk.peek() != 'to': tk.next()
            tk.next(); tk.type(); a = unq(tk.next())[1:]; tk.expect('unwind'); tk.type(); b = unq(tk.next())[1:]
            tgt = (a, b)
        return Instr(op, d, rt, (callee, args), (tgt, nr))
    if op == 'landingpad':
        t = tk.type(); cl = []; cleanup = False
        while not tk.done():
            x = tk.next()
            if x == 'cleanup': cleanup = True
            elif x == 'catch':
                ct = tk.type(); cl.append(('catch', tk.value(ct)))
            elif x == 'filter':
                ct = tk.type(); cl.append(('filter', tk.value(ct)))
        return Instr(op, d, t, cl, cleanup)
    if op in ('extractvalue', 'insertvalue'):
        t = tk.type(); v = tk.value(t); e = None
        if op == 'insertvalue':
            tk.expect(','); et = tk.type(); e = (et, tk.value(et))
        idx = []
        while tk.accept(','): idx.append(int(tk.next()))
        return Instr(op, d, t, (v, e), idx)
    if op in ('extractelement', 'insertelement', 'shufflevector'):
        return Instr('vecop', d, None, s)
    if op in ('atomicrmw', 'cmpxchg', 'fence'):
        if op == 'fence': return None
        if op == 'atomicrmw':
            tk.accept('volatile')
            rop = tk.next(); tk.type(); p = tk.value(PTR); tk.expect(','); t = tk.type(); v = tk.value(t)
            return Instr(op, d, t, (p, v), rop)
        return Instr('unsup', d, None, s)
    return Instr('unsup', d, None, s)
