"""Free-form Fortran front end: source text -> routines with a small statement AST."""
import re


class FortranError(Exception):
    pass


TOK = re.compile(r'''
    (?P<num>(?:\d+\.\d*(?![a-zA-Z]{2,}\.)|\.\d+|\d+)(?:[eEdD][+-]?\d+)?(?:_\w+)?)
  | (?P<dot>\.(?:and|or|not|eq|ne|lt|le|gt|ge|true|false|eqv|neqv)\.)
  | (?P<name>[a-zA-Z_]\w*)
  | (?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
  | (?P<op>\*\*|//|==|/=|<=|>=|=>|::|[-+*/(),:<>=%\[\]])
''', re.X | re.I)

NUMDOT = re.compile(r'(\d+)(\.(?:and|or|not|eq|ne|lt|le|gt|ge|eqv|neqv)\.)', re.I)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i].isspace():
            i += 1
            continue
        m = NUMDOT.match(s, i)
        if m:
            out.append(('num', m.group(1)))
            out.append(('dot', m.group(2).lower()))
            i = m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            raise FortranError('cannot tokenize %r' % s[i:i + 20])
        k = m.lastgroup
        v = m.group(k)
        if k in ('name', 'dot'):
            v = v.lower()
        out.append((k, v))
        i = m.end()
    return out


def logical_lines(text):
    """[(lineno, label or None, statement text)]"""
    out = []
    cur = ''
    start = None
    for no, raw in enumerate(text.split('\n'), 1):
        # strip comments
        line = ''
        q = None
        for ch in raw:
            if q:
                line += ch
                if ch == q:
                    q = None
                continue
            if ch in '\'"':
                q = ch
                line += ch
                continue
            if ch == '!':
                break
            line += ch
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        if line.startswith('&'):
            line = line[1:].strip()
        if start is None:
            start = no
        if line.endswith('&'):
            cur += line[:-1] + ' '
            continue
        cur += line
        for part in _split_semi(cur):
            part = part.strip()
            if part:
                m = re.match(r'^(\d+)\s+(.*)$', part)
                if m:
                    out.append((start, int(m.group(1)), m.group(2)))
                else:
                    out.append((start, None, part))
        cur = ''
        start = None
    return out


def _split_semi(s):
    parts = []
    q = None
    cur = ''
    for ch in s:
        if q:
            cur += ch
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
            cur += ch
        elif ch == ';':
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    parts.append(cur)
    return parts


# ---------------------------------------------------------------- expressions

class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise FortranError('expected %s at %r' % (v, self.t[self.i:self.i + 5]))

    @property
    def done(self):
        return self.i >= len(self.t)

    def expr(self):
        return self.p_eqv()

    def p_eqv(self):
        a = self.p_or()
        while self.peek()[1] in ('.eqv.', '.neqv.'):
            op = self.next()[1]
            a = ('bin', op, a, self.p_or())
        return a

    def p_or(self):
        a = self.p_and()
        while self.accept('.or.'):
            a = ('bin', 'or', a, self.p_and())
        return a

    def p_and(self):
        a = self.p_not()
        while self.accept('.and.'):
            a = ('bin', 'and', a, self.p_not())
        return a

    def p_not(self):
        if self.accept('.not.'):
            return ('un', 'not', self.p_not())
        return self.p_rel()

    REL = {'.eq.': '==', '==': '==', '.ne.': '/=', '/=': '/=', '.lt.': '<', '<': '<', '.le.': '<=',
           '<=': '<=', '.gt.': '>', '>': '>', '.ge.': '>=', '>=': '>='}

    def p_rel(self):
        a = self.p_add()
        v = self.peek()
        if v[0] in ('op', 'dot') and v[1] in self.REL:
            self.next()
            return ('bin', self.REL[v[1]], a, self.p_add())
        return a

    def p_add(self):
        if self.accept('-'):
            a = ('un', '-', self.p_mul())
        elif self.accept('+'):
            a = self.p_mul()
        else:
            a = self.p_mul()
        while self.peek()[0] == 'op' and self.peek()[1] in ('+', '-'):
            op = self.next()[1]
            a = ('bin', op, a, self.p_mul())
        return a

    def p_mul(self):
        a = self.p_pow()
        while self.peek()[0] == 'op' and self.peek()[1] in ('*', '/') and self.peek(1) != ('op', ')'):
            op = self.next()[1]
            a = ('bin', op, a, self.p_pow())
        return a

    def p_pow(self):
        a = self.p_prim()
        if self.accept('**'):
            if self.accept('-'):
                return ('bin', '**', a, ('un', '-', self.p_pow()))
            return ('bin', '**', a, self.p_pow())
        return a

    def p_prim(self):
        k, v = self.next()
        if k == 'num':
            v = re.sub(r'_\w+$', '', v)
            isint = re.fullmatch(r'\d+', v) is not None
            return ('num', v.lower().replace('d', 'e'), isint)
        if k == 'str':
            return ('str', v[1:-1])
        if k == 'dot' and v in ('.true.', '.false.'):
            return ('log', v == '.true.')
        if v == '(' and k == 'op' and self.peek() == ('op', '/'):
            self.next()
            return self.constructor(('/', ')'))
        if v == '(' and k == 'op':
            e = self.expr()
            self.expect(')')
            return e
        if v == '[' and k == 'op':
            return self.constructor((']',))
        if v in ('-', '+') and k == 'op':
            e = self.p_prim()
            return ('un', v, e) if v == '-' else e
        if k == 'name':
            if self.peek() == ('op', '('):
                self.next()
                args = []
                if not self.accept(')'):
                    while True:
                        args.append(self.arg())
                        if self.accept(','):
                            continue
                        self.expect(')')
                        break
                return ('call', v, args)
            return ('name', v)
        raise FortranError('unexpected token %r' % (v,))

    def constructor(self, close):
        # an optional type specification
        j = self.i
        while j < len(self.t) and self.t[j][0] in ('name', 'num') or self.t[j][1] in ('(', ')', '='):
            j += 1
        if j < len(self.t) and self.t[j] == ('op', '::'):
            self.i = j + 1
        xs = [self.item()]
        while self.accept(','):
            xs.append(self.item())
        # the slash of /) may have been read as a division: the operand parser leaves it alone (see p_mul)
        for c in close:
            self.expect(c)
        return ('arr', xs)

    def item(self):
        """an expression or an implied do"""
        if self.peek() == ('op', '(') and self.peek(1) != ('op', '/'):
            save = self.i
            self.next()
            try:
                xs = [self.item()]
                while self.accept(','):
                    if self.peek()[0] == 'name' and self.peek(1) == ('op', '='):
                        var = self.next()[1]
                        self.next()
                        lo = self.expr()
                        self.expect(',')
                        hi = self.expr()
                        st = self.expr() if self.accept(',') else None
                        self.expect(')')
                        return ('ido', xs, var, lo, hi, st)
                    xs.append(self.item())
            except FortranError:
                pass
            self.i = save
        return self.expr()

    def arg(self):
        # keyword argument
        if self.peek()[0] == 'name' and self.peek(1) == ('op', '='):
            n = self.next()[1]
            self.next()
            return ('kw', n, self.expr())
        lo = hi = st = None
        if self.peek() == ('op', '::'):
            self.next()
            st = self.expr()
            return ('slice', None, None, st)
        if self.peek() != ('op', ':'):
            lo = self.expr()
            if self.peek() != ('op', ':') and self.peek() != ('op', '::'):
                return lo
        if self.accept('::'):
            return ('slice', lo, None, self.expr())
        self.expect(':')
        if self.peek()[1] not in (',', ')', ':') or self.peek()[0] != 'op':
            hi = self.expr()
        if self.accept(':'):
            st = self.expr()
        return ('slice', lo, hi, st)


# ---------------------------------------------------------------- routines

class Routine:
    def __init__(self, kind, name, args, line, path):
        self.kind = kind
        self.name = name
        self.args = args
        self.line = line
        self.path = path
        self.decls = {}         # name -> dict(type, dims, intent, param)
        self.implicit_none = False
        self.body = []
        self.result = name
        self.host = None        # the routine containing this one
        self.inner = {}         # routines contained in this one
        self.mates = {}         # routines of the same file

    def scope(self, routines):
        """the routines that can be called from here"""
        out = dict(routines)
        out.update(self.mates)
        if self.host is not None:
            out.update(self.host.inner)
        out.update(self.inner)
        return out

    def local(self, n):
        return n in self.args or n in self.decls or n == self.result

    def typ(self, n):
        d = self.decls.get(n)
        if d and d.get('type'):
            return d['type']
        if self.host is not None and not self.local(n):
            return self.host.typ(n)
        return 'i' if n[0] in 'ijklmn' else 'r'


DECL = re.compile(r'^(integer|real|logical|double\s*precision|character|complex)\b', re.I)


def parse_file(path, text):
    lines = logical_lines(text)
    pos = [0]
    ended = [None]
    routines = []
    stray = []

    def parse_routine():
        no, lab, s = lines[pos[0]]
        t = tokenize(s)
        i = 0
        rtype = None
        while t[i][1] not in ('subroutine', 'function'):
            if t[i][1] in ('real', 'integer', 'logical'):
                rtype = t[i][1][0]
            i += 1
            if i >= len(t):
                raise FortranError('bad routine header %r' % s)
        kind = t[i][1]
        name = t[i + 1][1]
        p = P(t)
        p.i = i + 2
        args = []
        if p.accept('('):
            while not p.accept(')'):
                args.append(p.next()[1])
                p.accept(',')
        r = Routine(kind, name, args, no, path)
        if p.accept('result'):
            p.expect('(')
            r.result = p.next()[1]
        if rtype:
            r.decls[r.result] = dict(type=rtype, dims=None, intent=None, param=None)
        pos[0] += 1
        first = pos[0]
        try:
            r.body = parse_block(r, ('end',))
        except FortranError as e:
            # the body is not understood: executing it is an analysis failure, the other routines are unaffected
            r.body = [('bad', str(e), no)]
            pos[0] = first
            while pos[0] < len(lines) and not re.match(r'end\s*(subroutine|function)\b|end$', lines[pos[0]][2].lower()):
                pos[0] += 1
            pos[0] += 1
        return r

    def is_end(s, what):
        w = re.sub(r'\s+', ' ', s.lower())
        return any(w == x or w.startswith(x + ' ') for x in what) or w.replace(' ', '') in what

    def parse_block(r, ends):
        out = []
        while pos[0] < len(lines):
            no, lab, s = lines[pos[0]]
            low = s.lower().strip()
            if lab is not None:
                out.append(('label', lab, no))
            w = re.match(r'[a-z]+', low)
            w = w.group(0) if w else ''
            cmpct = re.sub(r'\s+', '', low)
            # block ends
            if 'enddo' in ends and cmpct.startswith('enddo'):
                pos[0] += 1
                return out
            if 'endif' in ends:
                if cmpct.startswith('endif'):
                    pos[0] += 1
                    ended[0] = 'endif'
                    return out
                if cmpct == 'else' or cmpct.startswith('elseif('):
                    ended[0] = 'else'
                    return out
            if 'endwhere' in ends and (cmpct.startswith('endwhere') or cmpct.startswith('elsewhere')):
                return out
            if 'endforall' in ends and cmpct.startswith('endforall'):
                return out
            if 'endblock' in ends and cmpct == 'endblock' or 'endassociate' in ends and cmpct == 'endassociate':
                pos[0] += 1
                return out
            if 'endselect' in ends and (cmpct.startswith('endselect') or cmpct.startswith('case')):
                return out
            if 'end' in ends and re.match(r'end\s*(subroutine|function|program|module)?\b', low) and not re.match(
                    r'end\s*(do|if|where|select|associate|block|forall)', low) and not re.match(r'end\w*\s*[=(]', low):
                pos[0] += 1
                return out
            if low == 'contains':
                pos[0] += 1
                while pos[0] < len(lines):
                    l2 = lines[pos[0]][2].lower()
                    if re.match(r'end\b|end(subroutine|function)', l2):
                        pos[0] += 1
                        return out
                    q = parse_routine()
                    q.host = r
                    r.inner[q.name] = q
                return out
            pos[0] += 1
            here = pos[0]
            try:
                st = parse_stmt(r, s, no, low, w, cmpct)
            except FortranError as e:
                if pos[0] != here:      # a block construct: its extent is unknown
                    raise
                st = ('bad', str(e), no)
            except (IndexError, AttributeError, TypeError, KeyError, ValueError) as e:
                if pos[0] != here:
                    raise FortranError('%s:%d %s in %r' % (path, no, type(e).__name__, s))
                st = ('bad', '%s in %r' % (type(e).__name__, s), no)
            if st is not None:
                out.append(st)
        return out

    def parse_decl(r, s, no):
        t = tokenize(s)
        ty = t[0][1]
        typ = {'integer': 'i', 'real': 'r', 'logical': 'l', 'double': 'r', 'character': 'c',
               'doubleprecision': 'r', 'complex': 'z'}[ty]
        p = P(t)
        p.i = 1
        if ty == 'double' and p.peek()[1] == 'precision':
            p.next()
        attrs = {}
        dims = None
        if p.peek() == ('op', '('):
            d = 0
            while True:
                v = p.next()
                if v == ('op', '('):
                    d += 1
                if v == ('op', ')'):
                    d -= 1
                    if d == 0:
                        break
        elif p.accept('*'):
            p.next()
        while p.accept(','):
            a = p.next()[1]
            if a == 'intent':
                p.expect('(')
                it = p.next()[1]
                if p.peek()[1] == 'out' and it == 'in':
                    p.next()
                    it = 'inout'
                attrs['intent'] = it
                p.expect(')')
            elif a == 'dimension':
                p.expect('(')
                dims = parse_dims(p)
            elif a == 'parameter':
                attrs['param'] = True
            elif p.peek() == ('op', '('):
                d = 0
                while True:
                    v = p.next()
                    if v == ('op', '('):
                        d += 1
                    if v == ('op', ')'):
                        d -= 1
                        if d == 0:
                            break
        p.accept('::')
        while not p.done:
            n = p.next()[1]
            dd = dims
            if p.accept('('):
                dd = parse_dims(p)
            init = None
            if p.accept('='):
                init = p.expr()
            old = r.decls.get(n, {})
            r.decls[n] = dict(type=typ, dims=dd if dd is not None else old.get('dims'),
                              intent=attrs.get('intent', old.get('intent')),
                              param=init if attrs.get('param') else None,
                              init=None if attrs.get('param') else init)
            if not p.accept(','):
                break

    def parse_dims(p):
        out = []
        while True:
            if p.peek() == ('op', ':') or p.peek() == ('op', '*'):
                p.next()
                out.append((None, None))
            else:
                a = p.expr()
                if p.accept(':'):
                    b = p.expr()
                    out.append((a, b))
                else:
                    out.append((('num', '1', True), a))
            if p.accept(','):
                continue
            p.expect(')')
            return out

    def parse_stmt(r, s, no, low, w, cmpct):
        if low.startswith('implicit'):
            r.implicit_none = 'none' in low
            return None
        if w in ('use', 'external', 'intrinsic', 'save', 'format', 'common', 'data', 'print', 'write', 'include') \
                and not re.match(r'\w+\s*=', low):
            if w in ('common', 'data', 'include'):
                raise FortranError('%s:%d unsupported statement %s' % (path, no, w))
            return None
        if w == 'dimension':
            p = P(tokenize(s))
            p.i = 1
            p.accept('::')
            while not p.done:
                n = p.next()[1]
                p.expect('(')
                dd = parse_dims(p)
                r.decls.setdefault(n, dict(type=None, dims=None, intent=None, param=None))['dims'] = dd
                p.accept(',')
            return None
        if w == 'parameter' and low.startswith('parameter') and '(' in low and not re.match(r'parameter\s*=', low):
            p = P(tokenize(s))
            p.i = 1
            p.expect('(')
            while not p.accept(')'):
                n = p.next()[1]
                p.expect('=')
                r.decls.setdefault(n, dict(type=None, dims=None, intent=None, param=None))['param'] = p.expr()
                p.accept(',')
            return None
        if w == 'intent':
            p = P(tokenize(s))
            p.i = 1
            p.expect('(')
            it = p.next()[1]
            p.expect(')')
            p.accept('::')
            while not p.done:
                n = p.next()[1]
                r.decls.setdefault(n, dict(type=None, dims=None, intent=None, param=None))['intent'] = it
                p.accept(',')
            return None
        m = DECL.match(low)
        if m and not re.match(r'^(real|integer|logical)\s*=', low):
            parse_decl(r, s, no)
            return None
        # named constructs:  name: do
        m = re.match(r'^([a-z_]\w*)\s*:\s*(do\b.*|if\b.*)$', low)
        if m and not low.startswith('case'):
            s = m.group(2)
            name = m.group(1)
            low = s.lower()
            w = re.match(r'[a-z]+', low).group(0)
            cmpct = re.sub(r'\s+', '', low)
            st = parse_stmt(r, s, no, low, w, cmpct)
            if st[0] == 'do':
                return st[:-1] + (name,)
            return st
        if w == 'do' and re.match(r'^do\s+(?:\d+\s*,?\s*)?[a-z_]\w*\s*=', low):
            m = re.match(r'^do\s+(\d+)\s*,?\s*(.*)$', s, re.I)
            if m:
                raise FortranError('%s:%d labelled do' % (path, no))
            t = tokenize(s)
            p = P(t)
            p.i = 1
            var = p.next()[1]
            p.expect('=')
            lo = p.expr()
            p.expect(',')
            hi = p.expr()
            st = None
            if p.accept(','):
                st = p.expr()
            body = parse_block(r, ('enddo',))
            return ('do', var, lo, hi, st, body, no, None)
        if re.match(r'^do\s*while\b', low):
            t = tokenize(s)
            p = P(t)
            while p.next()[1] not in ('while', 'dowhile'):
                pass
            c = p.expr()
            body = parse_block(r, ('enddo',))
            return ('while', c, body, no, None)
        if re.match(r'^do\s+concurrent', low):
            p = P(tokenize(s))
            while p.next()[1] not in ('concurrent', 'doconcurrent'):
                pass
            specs, mask = forall_header(p)
            body = parse_block(r, ('enddo',))
            if mask is not None:
                body = [('if', [(mask, body)], [], no)]
            for v, lo, hi, st in reversed(specs):
                body = [('do', v, lo, hi, st, body, no, None)]
            return body[0]
        if w == 'forall' and re.match(r'^forall\s*\(', low):
            p = P(tokenize(s))
            p.i = 1
            specs, mask = forall_header(p)
            if p.done:
                body = parse_block(r, ('endforall',))
                pos[0] += 1
            else:
                rest = _rest_text(s)
                rl = rest.lower().strip()
                body = [parse_stmt(r, rest, no, rl, re.match(r'[a-z]+', rl).group(0), re.sub(r'\s+', '', rl))]
            for b in body:
                # all right hand sides are evaluated before any store: only the same element may be read
                if b[0] != 'assign' or b[1][0] != 'call' or reads_other(b[1], b[2]):
                    raise FortranError('%s:%d forall' % (path, no))
            out = []
            for b in body:
                b = [b]
                if mask is not None:
                    b = [('if', [(mask, b)], [], no)]
                for v, lo, hi, st in reversed(specs):
                    b = [('do', v, lo, hi, st, b, no, None)]
                out += b
            return out[0] if len(out) == 1 else ('if', [(('log', True), out)], [], no)
        if low == 'block':
            return ('if', [(('log', True), parse_block(r, ('endblock',)))], [], no)
        if w == 'associate' and re.match(r'^associate\s*\(', low):
            p = P(tokenize(s))
            p.i = 1
            p.expect('(')
            mp = {}
            while True:
                v = p.next()[1]
                p.expect('=>')
                mp[v] = p.expr()
                if not p.accept(','):
                    break
            body = parse_block(r, ('endassociate',))
            return ('if', [(('log', True), [associated(x, mp, no) for x in body])], [], no)
        if w == 'allocate' and re.match(r'^allocate\s*\(', low):
            p = P(tokenize(s))
            p.i = 1
            p.expect('(')
            out = []
            while True:
                if p.peek()[1] == 'stat':
                    p.next()
                    p.expect('=')
                    p.next()
                else:
                    v = p.next()[1]
                    p.expect('(')
                    out.append(('allocate', v, parse_dims(p), no))
                if not p.accept(','):
                    break
            return out[0] if len(out) == 1 else ('if', [(('log', True), out)], [], no)
        if w == 'deallocate':
            return None
        if low == 'do':
            body = parse_block(r, ('enddo',))
            return ('while', ('log', True), body, no, None)
        if w == 'if' and re.match(r'^if\s*\(', low):
            t = tokenize(s)
            p = P(t)
            p.i = 1
            p.expect('(')
            c = p.expr()
            p.expect(')')
            if p.peek()[1] == 'then' and p.i == len(t) - 1:
                branches = [(c, parse_block(r, ('endif',)))]
                els = []
                while True:
                    # parse_block returned because of else/elseif (not consumed) or endif (consumed)
                    if ended[0] == 'endif':
                        break
                    no2, lab2, s2 = lines[pos[0]]
                    c2 = re.sub(r'\s+', '', s2.lower())
                    pos[0] += 1
                    if c2 == 'else':
                        els = parse_block(r, ('endif',))
                        break
                    t2 = tokenize(s2)
                    p2 = P(t2)
                    while p2.next()[1] not in ('if', 'elseif'):
                        pass
                    p2.expect('(')
                    cc = p2.expr()
                    p2.expect(')')
                    branches.append((cc, parse_block(r, ('endif',))))
                return ('if', branches, els, no)
            # one-line if
            rest = _rest_text(s)
            rl = rest.lower().strip()
            w2 = re.match(r'[a-z]+', rl)
            st = parse_stmt(r, rest, no, rl, w2.group(0) if w2 else '', re.sub(r'\s+', '', rl))
            return ('if', [(c, [st] if st else [])], [], no)
        if w == 'where' and re.match(r'^where\s*\(', low):
            t = tokenize(s)
            p = P(t)
            p.i = 1
            p.expect('(')
            c = p.expr()
            p.expect(')')
            if p.done:
                body = parse_block(r, ('endwhere',))
                els = []
                c2 = re.sub(r'\s+', '', lines[pos[0]][2].lower())
                pos[0] += 1
                if c2.startswith('elsewhere'):
                    els = parse_block(r, ('endwhere',))
                    pos[0] += 1
                return ('where', c, body, els, no)
            rest = _rest_text(s)
            rl = rest.lower().strip()
            st = parse_stmt(r, rest, no, rl, re.match(r'[a-z]+', rl).group(0), re.sub(r'\s+', '', rl))
            return ('where', c, [st], [], no)
        if cmpct.startswith('selectcase('):
            t = tokenize(s)
            p = P(t)
            while p.next()[1] not in ('case', 'selectcase'):
                pass
            p.expect('(')
            sel = p.expr()
            p.expect(')')
            branches = []
            els = []
            while True:
                no2, lab2, s2 = lines[pos[0]]
                c2 = re.sub(r'\s+', '', s2.lower())
                pos[0] += 1
                if c2.startswith('endselect'):
                    break
                p2 = P(tokenize(s2))
                p2.next()
                if p2.peek()[1] == 'default':
                    els = parse_block(r, ('endselect',))
                    continue
                p2.expect('(')
                cond = None
                while True:
                    a = p2.arg()
                    if a[0] == 'slice':
                        cc = None
                        if a[1] is not None:
                            cc = ('bin', '>=', sel, a[1])
                        if a[2] is not None:
                            c3 = ('bin', '<=', sel, a[2])
                            cc = c3 if cc is None else ('bin', 'and', cc, c3)
                    else:
                        cc = ('bin', '.eqv.' if a[0] == 'log' else '==', sel, a)
                    cond = cc if cond is None else ('bin', 'or', cond, cc)
                    if not p2.accept(','):
                        break
                branches.append((cond, parse_block(r, ('endselect',))))
            return ('if', branches, els, no)
        if re.match(r'^go\s*to\s*\d+', low):
            return ('goto', int(re.search(r'\d+', low).group(0)), no)
        if low == 'continue':
            return None
        if w == 'return' and low == 'return':
            return ('return', no)
        if w in ('exit', 'cycle') and re.match(r'^(exit|cycle)(\s+\w+)?$', low):
            parts = low.split()
            return (w, parts[1] if len(parts) > 1 else None, no)
        if w in ('stop', 'error'):
            return ('stop', no)
        if w == 'call':
            p = P(tokenize(s))
            p.i = 1
            e = p.p_prim()
            if e[0] == 'name':
                e = ('call', e[1], [])
            return ('callsub', e[1], e[2], no)
        if w in ('read', 'open', 'close', 'nullify'):
            raise FortranError('%s:%d unsupported statement %s' % (path, no, w))
        # assignment
        p = P(tokenize(s))
        lhs = p.p_prim()
        p.expect('=')
        rhs = p.expr()
        if not p.done:
            raise FortranError('%s:%d trailing tokens in %r' % (path, no, s))
        return ('assign', lhs, rhs, no)

    def forall_header(p):
        p.expect('(')
        specs = []
        mask = None
        if p.peek()[1] == 'integer':
            while p.next()[1] != '::':
                pass
        while True:
            if p.peek()[0] == 'name' and p.peek(1) == ('op', '='):
                v = p.next()[1]
                p.next()
                lo = p.expr()
                p.expect(':')
                hi = p.expr()
                specs.append((v, lo, hi, p.expr() if p.accept(':') else None))
            else:
                mask = p.expr()
            if not p.accept(','):
                break
        p.expect(')')
        return specs, mask

    def reads_other(lhs, e):
        if isinstance(e, tuple):
            if e == lhs:
                return False
            if len(e) > 1 and e[0] in ('name', 'call') and e[1] == lhs[1]:
                return True
            return any(reads_other(lhs, x) for x in e)
        if isinstance(e, list):
            return any(reads_other(lhs, x) for x in e)
        return False

    def associated(x, mp, no):
        if isinstance(x, list):
            return [associated(y, mp, no) for y in x]
        if not isinstance(x, tuple):
            return x
        if x[0] == 'name' and x[1] in mp:
            return mp[x[1]]
        if x[0] in ('assign',) and x[1][1] in mp and mp[x[1][1]][0] != 'name':
            raise FortranError('%s:%d assignment to an associated expression' % (path, no))
        if x[0] == 'call' and x[1] in mp:
            a = mp[x[1]]
            if a[0] != 'name':
                raise FortranError('%s:%d subscript of an associated expression' % (path, no))
            return ('call', a[1], associated(x[2], mp, no))
        return tuple(associated(y, mp, no) for y in x)

    def _rest_text(s):
        i = s.index('(')
        d = 0
        q = None
        for j in range(i, len(s)):
            ch = s[j]
            if q:
                if ch == q:
                    q = None
                continue
            if ch in '\'"':
                q = ch
            elif ch == '(':
                d += 1
            elif ch == ')':
                d -= 1
                if d == 0:
                    return s[j + 1:].strip()
        raise FortranError('unbalanced %r' % s)

    while pos[0] < len(lines):
        low = lines[pos[0]][2].lower()
        if re.match(r'^(pure |elemental |recursive |real |integer |logical )*\s*(subroutine|function)\b', low):
            routines.append(parse_routine())
        elif re.match(r'^(end\s*)?module\b|^implicit|^contains|^end', low):
            pos[0] += 1
        else:
            stray.append(('bad', 'unexpected top-level statement %r' % low[:40], lines[pos[0]][0]))
            pos[0] += 1
    out = {r.name: r for r in routines}
    for r in routines:
        r.mates = out
        r.body = stray + r.body
    return out
