# Workload over openquake.commonlib.record: records edited in place, and what they say about
# themselves (validity, errors, values), alone and in tables.
import core
import env
from w_storage import FIELDS

# own fields: (kind, valid strings, invalid strings)
OWN = [('int', ('1', '7', '-3', '007'), ('', 'x', '1.5')),
       ('text', ('a', '', 'any text', 'x,y'), ()),
       ('choice', ('yes', 'no'), ('', 'YES', 'maybe')),
       ('list', ('a b', 'c', ''), ('!',)),
       ('optional', ('', '1.5', '2'), ('x', '-')),
       ('fragile', ('1', '2'), ('x',))]


class Trouble(Exception):
    """What a cast function may raise when it does not work at all"""


class Casts(object):
    def __init__(self, sim):
        self.sim, self.trouble = sim, None

    def make(self, kind):
        def choice(v):
            if v not in ('yes', 'no'):
                raise ValueError('%r is neither yes nor no' % v)
            return v == 'yes'

        def lst(v):
            if '!' in v:
                raise ValueError(v)
            return v.split()

        def optional(v):
            return None if v == '' else float(v)

        def fragile(v):
            if self.trouble is not None:
                self.sim.fault('cast')
                raise self.trouble
            return int(v)
        return dict(int=int, text=str, choice=choice, list=lst, optional=optional,
                    fragile=fragile)[kind]


class Type(object):
    """A record type with its valid and invalid strings"""
    def __init__(self, sim, rt, fields, checks=()):
        self.sim, self.rt, self.fields = sim, rt, fields    # [(name, good, wrong)]
        self.names = [f[0] for f in fields]
        self.checks = list(checks)      # the constraints, on lists of strings
        self.base = False               # has a subclass
        sim.check(list(rt.fieldnames) == self.names, 'wrong-fields', '%s: %s', rt.__name__,
                  list(rt.fieldnames))

    def value(self, j, valid=None):
        _n, good, wrong = self.fields[j]
        if valid is None:
            valid = self.sim.draw(3) > 0
        pool = good if valid or not wrong else wrong
        return pool[self.sim.draw(len(pool))]

    def good(self, j, v):
        return v in self.fields[j][1]

    def bad(self, values):
        return [n for n, v, (_n, good, _w) in zip(self.names, values, self.fields) if v not in good]

    def valid(self, values):
        return not self.bad(values) and all(check(dict(zip(self.names, values)))
                                            for check in self.checks)


def area(v):
    return (v['area_type'] == '') == (v['area_unit'] == '')


def draw_types(sim, record, records, casts):
    types = []
    for i in range(1 + sim.draw(2)):
        if sim.draw(2):
            name = sim.choice(sorted(FIELDS)) if sim.draw(3) else 'Exposure'
            if any(t.rt.__name__ == name for t in types):
                continue
            # '' is valid where it is not said to be invalid
            fields = [(n, gw[0] + (() if '' in gw[0] + gw[1] else ('',)), gw[1])
                      for n, gw in FIELDS[name][1]]
            types.append(Type(sim, getattr(records, name), fields,
                              [area] if name == 'Exposure' else ()))
            continue
        n = 1 + sim.draw(5)
        order = sim.shuffled(['alpha', 'b', 'c1', 'delta', 'e'])[:n]
        kinds = [OWN[sim.draw(len(OWN))] for _ in order]
        cut = sim.draw(n) if n > 1 and sim.draw(3) == 1 else n
        dic = dict(convertername='Sim', __module__='sim', pkey=record.Unique(order[0]))
        for name, (kind, _g, _w) in zip(order, kinds)[:max(cut, 1)]:
            dic[name] = record.Field(casts.make(kind))
        rt = record.MetaRecord('Own%d' % i, (record.Record,), dic)
        if cut < n and cut:
            # the other fields are in a subclass
            types.append(Type(sim, rt, [(name, g, w) for name, (_k, g, w) in
                                        zip(order, kinds)[:cut]]))
            types[-1].base = True
            dic = dict(convertername='Sim', __module__='sim')
            for name, (kind, _g, _w) in zip(order, kinds)[cut:]:
                dic[name] = record.Field(casts.make(kind))
            rt = record.MetaRecord('Sub%d' % i, (rt,), dic)
        elif not cut:
            order, kinds = order[:1], kinds[:1]
        types.append(Type(sim, rt, [(name, g, w) for name, (_k, g, w) in zip(order, kinds)]))
    return types


class Rec(object):
    """A record and the strings it must have"""
    def __init__(self, sim, typ, record):
        self.sim, self.typ, self.record = sim, typ, record
        p = sim.pick(2, 0, 1)
        self.values = [typ.value(j, None if p == 2 else bool(p)) for j in range(len(typ.names))]
        if len(typ.names) > 1 and sim.draw(5) == 1:
            # the rest is left out
            k = 1 + sim.draw(len(typ.names) - 1)
            args, self.values[k:] = self.values[:k], [''] * (len(typ.names) - k)
        else:
            args = self.values
        self.rec = sim.must('record-failed', typ.rt, *args)

    def place(self, j):
        """A way to name the field j"""
        n = len(self.typ.names)
        return [j, self.typ.names[j], j - n][self.sim.draw(3)]

    def put(self, i, value):
        self.rec[i] = value

    def assign(self, casts):
        sim, typ = self.sim, self.typ
        j = sim.draw(len(typ.names))
        value = typ.value(j)
        where = self.place(j)
        sim.log('set', typ.rt.__name__, where, value)
        ok, res = sim.attempt(self.put, where, value)
        if ok:
            sim.check(typ.good(j, value), 'invalid-accepted', '%s[%r] = %r', typ.rt.__name__, where,
                      value)
            self.values[j] = value
        elif casts.trouble is not None and res is casts.trouble:
            pass
        else:
            sim.check(not typ.good(j, value), 'valid-rejected', '%s[%r] = %r: %s', typ.rt.__name__,
                      where, value, core.exc_text(res))
            sim.check(isinstance(res, ValueError), 'wrong-exception', '%s[%r] = %r: %s',
                      typ.rt.__name__, where, value, core.exc_text(res))
            sim.nontrivial = True
        return ok

    def nonsense(self, types):
        sim = self.sim
        where = sim.pick('nosuch', len(self.typ.names), -len(self.typ.names) - 1, '')
        if sim.draw(2):
            # a field of another type
            where = sim.choice(sim.choice(types).names)
            if where in self.typ.names:
                return
        ok, res = sim.attempt(self.rec.__getitem__, where)
        sim.check(not ok and isinstance(res, LookupError), 'invalid-accepted', '%s[%r] is %s',
                  self.typ.rt.__name__, where, core.text(res))
        ok, res = sim.attempt(self.put, where, '1')
        sim.check(not ok, 'invalid-accepted', '%s[%r]', self.typ.rt.__name__, where)
        sim.check(isinstance(res, LookupError), 'wrong-exception', '%s[%r]: %s',
                  self.typ.rt.__name__, where, core.exc_text(res))

    def content(self):
        sim, rec, n = self.sim, self.rec, len(self.typ.names)
        got = list(rec)
        if got != self.values or len(rec) != n:
            sim.fail('wrong-content', '%s has %s instead of %s' % (
                self.typ.rt.__name__, core.text(got), core.text(self.values)))
        for j, (name, v) in enumerate(zip(self.typ.names, self.values)):
            if rec[j] != v or rec[name] != v:
                sim.fail('wrong-content', '%s[%s] is %s instead of %s' % (
                    self.typ.rt.__name__, name, core.text(rec[name]), core.text(v)))

    def judge(self, full=True):
        """What the record says about itself"""
        sim, rec, typ = self.sim, self.rec, self.typ
        what = typ.rt.__name__
        bad = typ.bad(self.values)
        got = sim.must('validity-failed', rec.is_valid)
        sim.check(bool(got) == typ.valid(self.values), 'wrong-validity', '%s %s: %s', what,
                  core.text(self.values), got)
        if not full:
            return
        for j, name in enumerate(typ.names):
            got = sim.must('validity-failed', rec.is_valid, self.place(j))
            sim.check(bool(got) == (name not in bad), 'wrong-validity', '%s[%s] = %r: %s', what,
                      name, self.values[j], got)
        row, exc = sim.must('cast-failed', rec.cast)
        ok, tup = sim.attempt(rec.to_tuple)
        if bad:
            sim.check(row is None and exc is not None and not ok, 'invalid-accepted', '%s %s', what,
                      core.text(self.values))
            for e in (exc, tup):
                sim.check(isinstance(e, self.record.InvalidRecord), 'wrong-exception', '%s %s: %s',
                          what, core.text(self.values), core.exc_text(e))
                sim.check(e.record is rec, 'wrong-errors', 'of another record: %s', what)
                sim.check([n for n, _m in e.errorlist] == bad, 'wrong-errors',
                          '%s %s: errors in %s instead of %s', what, core.text(self.values),
                          [n for n, _m in e.errorlist], bad)
        else:
            sim.check(exc is None and ok, 'valid-rejected', '%s %s: %s', what,
                      core.text(self.values), core.text(exc or tup))
            # the same as a record just made of these strings
            fresh = typ.rt(*self.values).to_tuple()
            sim.check(row == fresh and tup == fresh and row._fields == tuple(typ.names),
                      'wrong-cast', '%s %s: %s', what, core.text(self.values), core.text(row))
            for j, name in enumerate(typ.names):
                v = sim.must('cast-failed', getattr, rec, name)
                sim.check(v == fresh[j] and type(v) is type(fresh[j]), 'wrong-cast', '%s.%s: %s',
                          what, name, core.text(v))
                if isinstance(v, float) and self.values[j]:
                    sim.check(v == float(self.values[j]), 'wrong-cast', '%s.%s: %s', what, name, v)
                elif isinstance(v, list):
                    sim.check(v == self.values[j].split(), 'wrong-cast', '%s.%s: %s', what, name, v)
                    # the caller may do with it what he likes
                    v.append('spoiled')
                    tup[j].append('spoiled')
        for name in bad:
            ok, res = sim.attempt(getattr, rec, name)
            sim.check(not ok and isinstance(res, ValueError), 'invalid-accepted', '%s.%s: %s', what,
                      name, core.text(res))


def scan(sim, record, recs):
    """The invalid records of a list, by find_invalid"""
    want = [(i, r.typ.bad(r.values)) for i, r in enumerate(recs) if r.typ.bad(r.values)]
    it = record.find_invalid(iter([r.rec for r in recs]))
    got = []
    for e in it:
        sim.check(e.record is recs[e.rowno].rec, 'wrong-errors', 'row %s', e.rowno)
        got.append((e.rowno, [n for n, _m in e.errorlist]))
    sim.check(got == want, 'wrong-errors', 'invalid records %s instead of %s', got, want)


def table(sim, record, recs):
    """A table of some of the records, edited before and after"""
    rt = recs[0].typ.rt
    mine, keys = [], set()
    uniques = rt.get_descriptors(record.Unique)
    for r in recs:
        if r.typ.rt is not rt:
            continue
        key = [tuple(r.rec[n] for n in u.names) for u in uniques]
        if not any(x in keys for x in enumerate(key)):
            keys.update(enumerate(key))
            mine.append(r)
    t = sim.must('record-failed', record.Table, rt, [r.rec for r in mine])
    return t, mine


def judge_table(sim, t, mine):
    want = all(r.typ.valid(r.values) for r in mine)
    got = sim.must('validity-failed', t.is_valid)
    sim.check(bool(got) == want, 'wrong-validity', 'table of %s: %s', t.recordtype.__name__, got)
    sim.check(len(t) == len(mine) and all(a is b.rec for a, b in zip(t, mine)), 'wrong-content',
              'table of %s', t.recordtype.__name__)


def equality(sim, recs):
    a = sim.choice(recs)
    others = [r for r in recs if r.typ is a.typ]
    b = sim.choice(others)
    if sim.draw(2):
        b = Rec(sim, a.typ, a.record)
        if sim.draw(2):
            b.values = list(a.values)
            b.rec = a.typ.rt(*b.values)
    same = a.values == b.values
    for x in (b.rec, list(b.values), tuple(b.values)):
        sim.check((a.rec == x) == same, 'wrong-equality', '%s == %s: %s', core.text(a.values),
                  core.text(b.values), not same)
        sim.check((a.rec != x) != same, 'wrong-equality', '%s != %s: %s', core.text(a.values),
                  core.text(b.values), same)
    sim.check(a.rec != a.values + ['x'], 'wrong-equality', 'other length')


def add_check(sim, typ):
    """A further constraint, from now on for all the records of the type"""
    if typ.base:
        return
    n = len(typ.names)
    a, b = typ.names[sim.draw(n)], typ.names[sim.draw(n)]
    if sim.draw(2) and a != b:
        typ.rt.add_check(lambda rec: rec[a] != rec[b])
        typ.checks.append(lambda v: v[a] != v[b])
    else:
        length = sim.draw(3)
        typ.rt.add_check(lambda rec: len(rec[a]) > length)
        typ.checks.append(lambda v: len(v[a]) > length)
    sim.log('check', typ.rt.__name__, a, b)
    sim.probe('constraint added')


def threads(sim, types, record, casts):
    """Each thread edits its own records"""
    th = core.Threads(sim, mean=sim.pick(12, 5, 40))

    def use(recs):
        for _ in range(3 + sim.draw(6)):
            r = sim.choice(recs)
            if sim.draw(2):
                r.assign(casts)
            else:
                r.judge(sim.draw(2))
        for r in recs:
            r.content()
            r.judge()
    for i in range(2 + sim.draw(2)):
        recs = [Rec(sim, sim.choice(types), record) for _ in range(1 + sim.draw(3))]
        th.spawn('use%d' % i, use, recs)
    th.run()
    for t in th.threads:
        if not t.ok:
            if isinstance(t.value, core.Violation):
                raise t.value
            sim.fail('edit-failed', core.exc_text(t.value))
    sim.nontrivial = True
    sim.probe('threads')


def c31(sim):
    record, records = env.boot('record', 'records')
    casts = Casts(sim)
    types = draw_types(sim, record, records, casts)
    recs = [Rec(sim, types[sim.draw(len(types))], record) for _ in range(1 + sim.draw(5))]
    tables = []
    steps = 3 + sim.draw(20)
    for _step in range(steps):
        op = sim.draw(12)
        r = sim.choice(recs)
        if op in (0, 1, 2, 3, 4):
            if sim.draw(8) == 1:
                casts.trouble = sim.pick(Trouble('cast'), KeyError('cast'), IOError(5, 'cast'),
                                         RuntimeError('cast'))
            try:
                r.assign(casts)
            finally:
                casts.trouble = None
        elif op == 5:
            r.judge()
        elif op == 6:
            scan(sim, record, sim.shuffled(recs)[:1 + sim.draw(len(recs))])
        elif op == 7 and len(tables) < 3:
            tables.append(table(sim, record, sim.shuffled(recs)))
        elif op == 8:
            equality(sim, recs)
        elif op == 9 and sim.draw(2):
            add_check(sim, types[sim.draw(len(types))])
        elif op == 10:
            r.nonsense(types)
        elif op == 11:
            recs.append(Rec(sim, types[sim.draw(len(types))], record))
        for x in recs:
            x.content()
        if sim.draw(3) == 0:
            r.judge(False)
            for t, mine in tables:
                judge_table(sim, t, mine)
    for x in recs:
        x.judge()
    for t, mine in tables:
        judge_table(sim, t, mine)
    scan(sim, record, recs)
    if sim.draw(4) == 1:
        threads(sim, types, record, casts)
    sim.seen(tuple(sorted(len(t.names) for t in types)), len(recs), len(tables),
             sum(len(t.checks) for t in types),
             sum(1 for x in recs if not x.typ.valid(x.values)))


WORKLOADS = dict(C31=c31)
