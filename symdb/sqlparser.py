"""A parser for the SQL that Django and django-denorm emit for SQLite, PostgreSQL and MySQL,
including trigger programs (plpgsql bodies, BEGIN ... END blocks, IF/THEN, EXCEPTION).

Produces plain tuples/dicts; names are Ident(name, quoted).
"""
import re


class SqlError(Exception):
    """The statement is not acceptable SQL here (syntax, or a construct that is not modelled)."""


class Ident(object):
    __slots__ = ('name', 'quoted')

    def __init__(self, name, quoted):
        self.name = name
        self.quoted = quoted

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Ident) and (self.name, self.quoted) == (o.name, o.quoted)

    def __hash__(self):
        return hash((self.name, self.quoted))


TOKEN = re.compile(r'''
   (?P<ws>\s+)
 | (?P<comment>--[^\n]*|/\*.*?\*/)
 | (?P<dollar>\$(?P<tag>\w*)\$.*?\$(?P=tag)\$)
 | (?P<str>[eE]?'(?:[^']|'')*')
 | (?P<qid>"(?:[^"]|"")*"|`(?:[^`]|``)*`|\[[A-Za-z_][^\]]*\])
 | (?P<num>\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+|\d+(?:[eE][+-]?\d+)?)
 | (?P<param>%s|\?)
 | (?P<sysvar>@@[\w.]+)
 | (?P<id>[^\W\d]\w*)
 | (?P<op><=>|<>|!=|>=|<=|==|\|\||::|:=|&&|[-+*/%(),.;<>=~!])
''', re.X | re.S)


class Tok(object):
    __slots__ = ('kind', 'val', 'pos')

    def __init__(self, kind, val, pos):
        self.kind = kind
        self.val = val
        self.pos = pos

    def __repr__(self):
        return '%s:%r' % (self.kind, self.val)


def tokenize(sql, formatted):
    """formatted: the driver applied %-formatting, so %% means %."""
    toks = []
    pos = 0
    n = len(sql)
    while pos < n:
        if formatted and sql.startswith('%%', pos):
            toks.append(Tok('op', '%', pos))
            pos += 2
            continue
        m = TOKEN.match(sql, pos)
        if not m:
            raise SqlError('cannot tokenize at %r' % sql[pos:pos + 40])
        kind = m.lastgroup if m.lastgroup != 'tag' else 'dollar'
        text = m.group(0)
        pos = m.end()
        if kind in ('ws', 'comment'):
            continue
        if kind == 'str':
            if text[0] in 'eE':
                text = text[1:]
            text = text[1:-1].replace("''", "'")
            if formatted:
                text = text.replace('%%', '%')
        elif kind == 'qid':
            q = text[0]
            text = text[1:-1]
            if q != '[':
                text = text.replace(q * 2, q)
        elif kind == 'dollar':
            tag = m.group('tag')
            text = text[len(tag) + 2:-(len(tag) + 2)]
        toks.append(Tok(kind, text, m.start()))
    toks.append(Tok('eof', '', n))
    return toks


RESERVED = set('''select from where and or not in is null like between case when then else end
 as on join inner left outer cross order group by having limit offset union set values insert into update
 delete distinct exists for each row begin if elsif elseif replace ignore returning asc desc escape
 create drop trigger function using isnull notnull collate'''.split())


# words that need quoting when used as a name
WORDS = set('order group select from table where when then case default check column references limit values unique '
            'primary foreign create to having union using and or not in is as on'.split())
WORDS_OF = {'sqlite3': set('index transaction add alter'.split()),
            'postgresql': set('user end both all any array do offset window analyse'.split()),
            'mysql': set('index key keys add alter range rank rows system condition interval read write groups'.split())}


class Parser(object):
    def __init__(self, sql, formatted=False, dialect='sqlite3'):
        self.sql = sql
        self.formatted = formatted
        self.dialect = dialect
        self.toks = tokenize(sql, formatted)
        self.i = 0
        self.nparams = 0

    # -- token helpers
    @property
    def t(self):
        return self.toks[self.i]

    def peek(self, k=1):
        j = min(self.i + k, len(self.toks) - 1)
        return self.toks[j]

    def is_kw(self, *words, **kw):
        t = self.toks[min(self.i + kw.get('k', 0), len(self.toks) - 1)]
        return t.kind == 'id' and t.val.lower() in words

    def kw(self, *words):
        """accept a sequence of keywords"""
        for k, w in enumerate(words):
            if not self.is_kw(w, k=k):
                return False
        self.i += len(words)
        return True

    def need_kw(self, *words):
        if not self.kw(*words):
            self.fail('expected %s' % ' '.join(words))

    def is_op(self, *ops):
        return self.t.kind == 'op' and self.t.val in ops

    def op(self, o):
        if self.is_op(o):
            self.i += 1
            return True
        return False

    def need_op(self, o):
        if not self.op(o):
            self.fail('expected %r' % o)

    def fail(self, msg):
        raise SqlError('%s near %r in %s' % (msg, self.sql[self.t.pos:self.t.pos + 40], ' '.join(self.sql.split())[:300]))

    def ident(self):
        t = self.t
        if t.kind == 'qid':
            self.i += 1
            return Ident(t.val, True)
        if t.kind == 'id':
            if t.val.lower() in WORDS or t.val.lower() in WORDS_OF[self.dialect]:
                self.fail('reserved word')
            self.i += 1
            return Ident(t.val, False)
        self.fail('expected identifier')

    # -- expressions
    def expr(self):
        return self.e_or()

    def e_or(self):
        a = self.e_and()
        while self.kw('or'):
            a = ('bin', 'or', a, self.e_and())
        return a

    def e_and(self):
        a = self.e_not()
        while True:
            if self.kw('and'):
                a = ('bin', 'and', a, self.e_not())
            elif self.dialect == 'mysql' and self.op('&&'):
                a = ('bin', 'and', a, self.e_not())
            else:
                return a

    def e_not(self):
        if self.kw('not'):
            return ('un', 'not', self.e_not())
        return self.e_cmp()

    def e_cmp(self):
        a = self.e_add()
        while True:
            if self.t.kind == 'op' and self.t.val in ('=', '==', '<>', '!=', '<', '<=', '>', '>=', '<=>'):
                o = self.t.val
                self.i += 1
                b = self.e_add()
                o = {'==': '=', '!=': '<>'}.get(o, o)
                a = ('bin', o, a, b)
                continue
            if self.is_kw('is'):
                self.i += 1
                neg = self.kw('not')
                if self.kw('null'):
                    a = ('isnull', a, neg)
                elif self.kw('distinct', 'from'):
                    a = ('distinct', a, self.e_add(), neg)
                elif self.is_kw('true', 'false', 'unknown'):
                    w = self.t.val.lower()
                    self.i += 1
                    a = ('istruth', a, w, neg)
                else:
                    # sqlite: a IS [NOT] b
                    if self.dialect != 'sqlite3':
                        self.fail('IS with a general operand')
                    a = ('distinct', a, self.e_add(), not neg)
                continue
            if self.kw('isnull'):
                a = ('isnull', a, False)
                continue
            if self.kw('notnull'):
                a = ('isnull', a, True)
                continue
            neg = False
            save = self.i
            if self.kw('not'):
                neg = True
            if self.kw('in'):
                self.need_op('(')
                if self.is_kw('select'):
                    sel = self.select()
                    self.need_op(')')
                    a = ('insel', a, sel, neg)
                else:
                    items = []
                    if not self.is_op(')'):
                        items.append(self.expr())
                        while self.op(','):
                            items.append(self.expr())
                    self.need_op(')')
                    a = ('in', a, items, neg)
                continue
            if self.is_kw('like', 'ilike', 'glob', 'regexp'):
                w = self.t.val.lower()
                self.i += 1
                if w == 'like' and self.kw('binary'):
                    w = 'like binary'
                b = self.e_add()
                esc = None
                if self.kw('escape'):
                    esc = self.e_add()
                a = ('like', w, a, b, neg, esc)
                continue
            if self.kw('between'):
                lo = self.e_add()
                self.need_kw('and')
                hi = self.e_add()
                a = ('between', a, lo, hi, neg)
                continue
            self.i = save
            return a

    def e_add(self):
        a = self.e_mul()
        while self.is_op('+', '-', '||'):
            o = self.t.val
            self.i += 1
            a = ('bin', o, a, self.e_mul())
        return a

    def e_mul(self):
        a = self.e_unary()
        while self.is_op('*', '/', '%'):
            o = self.t.val
            self.i += 1
            a = ('bin', o, a, self.e_unary())
        return a

    def e_unary(self):
        if self.op('-'):
            return ('un', '-', self.e_unary())
        if self.op('+'):
            return self.e_unary()
        if self.dialect == 'mysql' and self.op('!'):
            return ('un', 'not', self.e_unary())
        if self.dialect == 'mysql' and self.is_kw('binary') and not (self.peek().kind == 'op' and self.peek().val in ('.', ',', ')')):
            self.i += 1
            return ('cast', self.e_unary(), 'binary')
        return self.e_postfix()

    def e_postfix(self):
        a = self.e_primary()
        while True:
            if self.op('::'):
                a = ('cast', a, self.type_name())
            elif self.kw('collate'):
                c = self.ident()
                a = ('collate', a, c.name)
            else:
                return a

    def type_name(self):
        words = [self.ident().name.lower()]
        while self.t.kind == 'id' and self.t.val.lower() in ('varying', 'precision', 'integer', 'set', 'unsigned', 'signed', 'char'):
            words.append(self.t.val.lower())
            self.i += 1
        if self.op('('):
            while not self.op(')'):
                self.i += 1
        return ' '.join(words)

    def e_primary(self):
        t = self.t
        if t.kind == 'num':
            self.i += 1
            return ('num', float(t.val) if ('.' in t.val or 'e' in t.val.lower()) else int(t.val))
        if t.kind == 'str':
            self.i += 1
            return ('str', t.val)
        if t.kind == 'param':
            self.i += 1
            self.nparams += 1
            return ('param', self.nparams - 1)
        if t.kind == 'sysvar':
            self.i += 1
            return ('sysvar', t.val)
        if self.op('('):
            if self.is_kw('select'):
                sel = self.select()
                self.need_op(')')
                return ('sub', sel)
            e = self.expr()
            if self.is_op(','):
                items = [e]
                while self.op(','):
                    items.append(self.expr())
                self.need_op(')')
                return ('row', items)
            self.need_op(')')
            return e
        if t.kind == 'id':
            w = t.val.lower()
            nxt = self.peek()
            if w == 'null':
                self.i += 1
                return ('null',)
            if w in ('true', 'false') and not (nxt.kind == 'op' and nxt.val == '.'):
                self.i += 1
                return ('bool', w == 'true')
            if w == 'case':
                return self.case()
            if w == 'exists':
                self.i += 1
                self.need_op('(')
                sel = self.select()
                self.need_op(')')
                return ('exists', sel)
            if w == 'cast' and nxt.kind == 'op' and nxt.val == '(':
                self.i += 2
                e = self.expr()
                self.need_kw('as')
                ty = self.type_name()
                self.need_op(')')
                return ('cast', e, ty)
            if w == 'extract' and nxt.kind == 'op' and nxt.val == '(':
                self.i += 2
                part = self.ident().name.lower()
                self.need_kw('from')
                e = self.expr()
                self.need_op(')')
                return ('func', 'extract_' + part, [e], False, False)
            if w in ('current_timestamp', 'current_date', 'current_time', 'localtime', 'localtimestamp') and \
                    not (nxt.kind == 'op' and nxt.val in '(.'):
                self.i += 1
                return ('func', w, [], False, False)
            if nxt.kind == 'op' and nxt.val == '(':
                self.i += 2
                if self.op('*'):
                    self.need_op(')')
                    return ('func', w, [], True, False)
                distinct = self.kw('distinct')
                args = []
                if not self.is_op(')'):
                    args.append(self.expr())
                    while self.op(','):
                        args.append(self.expr())
                self.need_op(')')
                return ('func', w, args, False, distinct)
        if t.kind in ('id', 'qid'):
            if t.kind == 'id' and t.val.lower() in RESERVED:
                self.fail('unexpected keyword')
            a = self.ident()
            parts = [a]
            while self.is_op('.') :
                self.i += 1
                if self.op('*'):
                    return ('star', parts[-1])
                parts.append(self.ident())
            if len(parts) == 1:
                return ('col', None, parts[0])
            return ('col', parts[-2], parts[-1])
        self.fail('unexpected token')

    def case(self):
        self.need_kw('case')
        operand = None
        if not self.is_kw('when'):
            operand = self.expr()
        whens = []
        while self.kw('when'):
            c = self.expr()
            self.need_kw('then')
            whens.append((c, self.expr()))
        els = None
        if self.kw('else'):
            els = self.expr()
        self.need_kw('end')
        return ('case', operand, whens, els)

    # -- select
    def select(self):
        self.need_kw('select')
        d = dict(distinct=False, on=None, items=[], frm=[], where=None, group=None, having=None, order=[], limit=None, offset=None)
        if self.kw('distinct'):
            d['distinct'] = True
            if self.kw('on'):
                self.need_op('(')
                d['on'] = [self.expr()]
                while self.op(','):
                    d['on'].append(self.expr())
                self.need_op(')')
        else:
            self.kw('all')
        while True:
            if self.op('*'):
                d['items'].append((('star', None), None))
            else:
                e = self.expr()
                alias = None
                if self.kw('as'):
                    alias = self.ident()
                elif self.t.kind == 'qid' or (self.t.kind == 'id' and self.t.val.lower() not in RESERVED):
                    alias = self.ident()
                d['items'].append((e, alias))
            if not self.op(','):
                break
        if self.kw('from'):
            d['frm'].append(self.table_ref('cross', None))
            while True:
                if self.op(','):
                    d['frm'].append(self.table_ref('cross', None))
                elif self.is_kw('inner', 'join', 'left', 'cross'):
                    jt = 'inner'
                    if self.kw('left'):
                        self.kw('outer')
                        jt = 'left'
                    elif self.kw('cross'):
                        jt = 'cross'
                    else:
                        self.kw('inner')
                    self.need_kw('join')
                    ref = self.table_ref(jt, None)
                    if self.kw('on'):
                        ref = (ref[0], ref[1], jt, self.expr())
                    d['frm'].append(ref)
                else:
                    break
        if self.kw('where'):
            d['where'] = self.expr()
        if self.kw('group', 'by'):
            d['group'] = [self.expr()]
            while self.op(','):
                d['group'].append(self.expr())
        if self.kw('having'):
            d['having'] = self.expr()
        if self.kw('order', 'by'):
            while True:
                e = self.expr()
                desc = False
                if self.kw('desc'):
                    desc = True
                else:
                    self.kw('asc')
                if self.kw('nulls'):
                    self.i += 1
                d['order'].append((e, desc))
                if not self.op(','):
                    break
        if self.kw('limit'):
            d['limit'] = self.expr()
            if self.op(','):
                d['offset'] = d['limit']
                d['limit'] = self.expr()
        if self.kw('offset'):
            d['offset'] = self.expr()
        if self.kw('for'):
            if not (self.kw('update') or self.kw('share')):
                self.fail('FOR')
            d['lock'] = True
            while self.is_kw('nowait', 'skip', 'locked', 'of', 'no', 'key'):
                self.i += 1
        if self.is_kw('union', 'intersect', 'except'):
            self.fail('set operation')
        return d

    def table_ref(self, jt, on):
        if self.op('('):
            sel = self.select()
            self.need_op(')')
            self.kw('as')
            alias = self.ident()
            return (('sub', sel), alias, jt, on)
        name = self.ident()
        if self.op('.'):
            schema, name = name, self.ident()
            name = Ident(name.name, name.quoted)
        alias = None
        if self.kw('as'):
            alias = self.ident()
        elif self.t.kind == 'qid' or (self.t.kind == 'id' and self.t.val.lower() not in RESERVED):
            alias = self.ident()
        return (('table', name), alias, jt, on)

    # -- DML
    def statement(self):
        """one data statement, without the trailing semicolon"""
        if self.is_kw('select'):
            return ('select', self.select())
        if self.kw('insert'):
            mode = 'plain'
            if self.kw('or'):
                mode = self.ident().name.lower()
            elif self.kw('ignore'):
                mode = 'ignore'
            self.kw('into')
            return self.insert_rest(mode)
        if self.is_kw('replace') and self.is_kw('into', k=1):
            self.i += 2
            return self.insert_rest('replace')
        if self.kw('update'):
            if self.kw('or'):
                self.ident()
            elif self.kw('ignore'):
                pass
            table = self.ident()
            self.kw('as')
            alias = None
            if not self.is_kw('set'):
                alias = self.ident()
            self.need_kw('set')
            sets = []
            while True:
                c = self.ident()
                if self.op('.'):
                    c = self.ident()
                self.need_op('=')
                sets.append((c, self.expr()))
                if not self.op(','):
                    break
            where = self.expr() if self.kw('where') else None
            return ('update', table, alias, sets, where)
        if self.kw('delete'):
            self.need_kw('from')
            table = self.ident()
            where = self.expr() if self.kw('where') else None
            return ('delete', table, where)
        self.fail('unsupported statement')

    def insert_rest(self, mode):
        table = self.ident()
        cols = None
        if self.is_op('(') and not (self.peek().kind == 'id' and self.peek().val.lower() == 'select'):
            self.i += 1
            cols = [self.ident()]
            while self.op(','):
                cols.append(self.ident())
            self.need_op(')')
        src = None
        if self.kw('values') or self.kw('value'):
            rows = []
            while True:
                self.need_op('(')
                row = []
                if not self.is_op(')'):
                    row = [self.expr()]
                    while self.op(','):
                        row.append(self.expr())
                self.need_op(')')
                rows.append(row)
                if not self.op(','):
                    break
            src = ('values', rows)
        elif self.kw('default', 'values'):
            src = ('values', [[]])
            cols = []
        elif self.is_op('('):
            self.need_op('(')
            src = ('select', self.select())
            self.need_op(')')
        else:
            src = ('select', self.select())
        if self.kw('on'):
            if self.kw('conflict'):
                if self.op('('):
                    while not self.op(')'):
                        self.i += 1
                self.need_kw('do')
                if self.kw('nothing'):
                    mode = 'ignore'
                else:
                    self.fail('ON CONFLICT DO UPDATE')
            else:
                self.fail('ON DUPLICATE KEY')
        returning = None
        if self.kw('returning'):
            returning = [self.expr()]
            while self.op(','):
                returning.append(self.expr())
        return ('insert', mode, table, cols, src, returning)

    # -- trigger programs
    def block(self, *stops):
        """statements up to one of the stop keywords (not consumed)"""
        out = []
        while True:
            while self.op(';'):
                pass
            if self.is_kw(*stops) or self.t.kind == 'eof':
                return out
            out.append(self.prog_statement())
            if self.is_kw(*stops) or self.t.kind == 'eof':
                return out
            self.need_op(';')

    def prog_statement(self):
        if self.is_kw('if') :
            self.i += 1
            branches = []
            c = self.expr()
            self.need_kw('then')
            branches.append((c, self.block('elsif', 'elseif', 'else', 'end')))
            els = []
            while True:
                if self.kw('elsif') or self.kw('elseif'):
                    c = self.expr()
                    self.need_kw('then')
                    branches.append((c, self.block('elsif', 'elseif', 'else', 'end')))
                elif self.kw('else'):
                    els = self.block('end')
                else:
                    break
            self.need_kw('end', 'if')
            return ('if', branches, els)
        if self.kw('begin'):
            body = self.block('exception', 'end')
            handlers = []
            if self.kw('exception'):
                while self.kw('when'):
                    names = [self.ident().name]
                    while self.kw('or'):
                        names.append(self.ident().name)
                    self.need_kw('then')
                    handlers.append((names, self.block('when', 'end')))
            self.need_kw('end')
            return ('block', body, handlers)
        if self.kw('return'):
            if self.t.kind == 'id':
                self.i += 1
            return ('return',)
        if self.is_kw('null') and self.peek().kind == 'op' and self.peek().val == ';':
            self.i += 1
            return ('nop',)
        if self.kw('perform'):
            self.i -= 1
            self.toks[self.i] = Tok('id', 'select', self.t.pos)
            return ('select', self.select())
        if self.kw('set'):
            self.fail('SET in trigger')
        return self.statement()


def parse_params(sql, dialect, formatted):
    return Parser(sql, formatted, dialect)


def parse_sql(sql, dialect, formatted):
    """-> list of top-level statements (trigger DDL included)"""
    p = Parser(sql, formatted, dialect)
    out = []
    while p.t.kind != 'eof':
        if p.op(';'):
            continue
        out.append(top(p))
        if p.t.kind != 'eof':
            p.need_op(';')
    return out


def top(p):
    if p.is_kw('create'):
        start = p.i
        p.i += 1
        if p.kw('or', 'replace'):
            pass
        if p.kw('temp') or p.kw('temporary'):
            pass
        if p.kw('function'):
            name = p.ident()
            p.need_op('(')
            p.need_op(')')
            p.need_kw('returns')
            p.need_kw('trigger')
            body = None
            while body is None or p.is_kw('language'):
                if p.kw('as'):
                    if p.t.kind not in ('dollar', 'str'):
                        p.fail('function body')
                    body = p.t.val
                    p.i += 1
                elif p.kw('language'):
                    p.ident()
                else:
                    p.fail('function option')
            q = Parser(body, p.formatted, p.dialect)
            if q.kw('declare'):
                q.fail('DECLARE')
            prog = q.prog_statement()
            q.op(';')
            if q.t.kind != 'eof':
                q.fail('trailing text in function body')
            p.nparams += q.nparams
            return ('create_function', name, prog)
        if p.kw('trigger'):
            ifne = p.kw('if', 'not', 'exists')
            name = p.ident()
            time = p.ident().name.lower()
            event = p.ident().name.lower()
            if p.kw('of'):
                p.fail('UPDATE OF trigger')
            if p.is_kw('or'):
                p.fail('multi-event trigger')
            p.need_kw('on')
            table = p.ident()
            if p.op('.'):
                table = p.ident()
            p.need_kw('for', 'each', 'row')
            when = None
            if p.kw('when'):
                p.need_op('(')
                when = p.expr()
                p.need_op(')')
            if p.kw('execute'):
                if not (p.kw('procedure') or p.kw('function')):
                    p.fail('EXECUTE')
                fn = p.ident()
                p.need_op('(')
                p.need_op(')')
                return ('create_trigger', name, time, event, table, when, ('call', fn), ifne)
            prog = p.prog_statement()
            return ('create_trigger', name, time, event, table, when, prog, ifne)
        p.i = start
        if p.kw('create', 'language') or p.kw('create', 'procedural', 'language'):
            p.ident()
            return ('nop',)
        p.fail('unsupported CREATE')
    if p.kw('drop'):
        if p.kw('trigger'):
            ife = p.kw('if', 'exists')
            name = p.ident()
            table = None
            if p.kw('on'):
                table = p.ident()
            p.kw('cascade')
            return ('drop_trigger', name, table, ife)
        if p.kw('function'):
            ife = p.kw('if', 'exists')
            name = p.ident()
            if p.op('('):
                p.need_op(')')
            p.kw('cascade')
            return ('drop_function', name, ife)
        p.fail('unsupported DROP')
    if p.kw('show', 'triggers'):
        return ('show_triggers',)
    if p.is_kw('begin', 'start'):
        while p.t.kind != 'eof' and not p.is_op(';'):
            p.i += 1
        return ('begin',)
    if p.kw('commit'):
        return ('commit',)
    if p.kw('rollback', 'to'):
        p.kw('savepoint')
        return ('rollback_to', p.ident().name)
    if p.kw('rollback'):
        return ('rollback',)
    if p.kw('savepoint'):
        return ('savepoint', p.ident().name)
    if p.kw('release'):
        p.kw('savepoint')
        return ('release', p.ident().name)
    if p.is_kw('set', 'pragma', 'lock'):
        while p.t.kind != 'eof' and not p.is_op(';'):
            p.i += 1
        return ('nop',)
    return p.statement()
