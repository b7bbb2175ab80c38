# Workloads over openquake.commonlib.record (tables and table sets), with the record types
# of records.py and others made for the run.
import core
import env

VALUES = ['1', '2', '3', '', '1.0', 'a', 'b', 'A', '01', 'x y']


class Unhashable(object):
    __hash__ = None

    def __repr__(self):
        return 'unhashable'


class Broken(Exception):
    pass


def make_type(sim, record, name, nfields, uniques, fkeys=(), constraint=()):
    """A record type: uniques {attribute: field names}, fkeys [(attribute, Unique, names)]"""
    dic = dict(convertername='Sim', __module__='sim')
    for i in range(nfields):
        dic['f%d' % i] = record.Field(str)
    for attr, names in uniques:
        dic[attr] = record.Unique(*names)
    for attr, unique, names in fkeys:
        dic[attr] = record.ForeignKey(unique, *names)
    return record.MetaRecord(name, (record.Record,), dic)


def draw_type(sim, record, records):
    """(type, [names of each unique constraint], number of fields)"""
    k = sim.draw(6)
    if k == 0:
        rt = records.Location
        return rt, [('id',), ('lon', 'lat')]
    if k == 1:
        rt = records.DiscreteVulnerabilityData
        return rt, [('vulnerabilitySetID', 'vulnerabilityFunctionID', 'IML')]
    n = 2 + sim.draw(4)
    names = ['f%d' % i for i in range(n)]
    pools = ['pkey', 'unique', 'another', 'u0', 'z_last', 'a_first']
    uniques = [('pkey', sim.shuffled(names)[:1 + sim.draw(min(3, n))])]
    for attr in sim.shuffled(pools[1:])[:sim.draw(4)]:
        uniques.append((attr, sim.shuffled(names)[:1 + sim.draw(min(3, n))]))
    rt = make_type(sim, record, 'Thing', n, uniques)
    return rt, [tuple(names_) for _a, names_ in uniques]


class Model(object):
    """What a table with unique constraints has to be: a list of records"""
    def __init__(self, rt, uniques):
        self.rows = []
        self.rt = rt
        self.uniques = uniques

    def key(self, rec, names):
        return tuple(rec[n] for n in names)

    def clash(self, rec, without=None):
        for names in self.uniques:
            k = self.key(rec, names)
            for r in self.rows:
                if r is not without and self.key(r, names) == k:
                    return True
        return False


def c21(sim):
    record, records = env.boot('record', 'records')
    rt, uniques = draw_type(sim, record, records)
    model = Model(rt, uniques)
    table = sim.must('create-failed', record.Table, rt, [])
    nvalues = sim.pick(3, 2, 4, len(VALUES))
    fieldnames = list(rt.fieldnames)
    sim.log('type', rt.__name__, fieldnames, uniques)
    rejected = [0]

    def make():
        row = [VALUES[sim.draw(nvalues)] for _ in fieldnames]
        return sim.must('record-failed', rt, *row)

    def expect(op, func, rec, clash, apply):
        ok, res = sim.attempt(func)
        if clash:
            if ok:
                sim.fail('duplicate-accepted', '%s of %s accepted' % (op, core.text(rec.row)))
            sim.check(isinstance(res, KeyError), 'wrong-exception', '%s of a duplicate raised %s',
                      op, core.exc_text(res))
            rejected[0] += 1
        else:
            if not ok:
                sim.fail('record-rejected', '%s of %s: %s' % (
                    op, core.text(rec.row), core.exc_text(res)))
            apply()
        sim.log(op, rec.row, clash)

    def consistent(step):
        got = list(table)
        sim.check(len(got) == len(model.rows) and len(table) == len(model.rows), 'wrong-records',
                  'after %s: %s records instead of %s', step, len(got), len(model.rows))
        for i, (a, b) in enumerate(zip(got, model.rows)):
            if a is not b or table[i] is not b:
                sim.fail('wrong-records', 'after %s: record %d is %s instead of %s' % (
                    step, i, core.text(a.row), core.text(b.row)))

    def lookups(full=False):
        pkey = uniques[0]
        for r in model.rows:
            ok, res = sim.attempt(table.getrecord, *model.key(r, pkey))
            if not ok or res is not r:
                sim.fail('wrong-lookup', 'key %s gives %s' % (
                    core.text(model.key(r, pkey)), core.text(res.row) if ok else core.exc_text(res)))
        for _ in range(4):
            key = tuple(VALUES[sim.draw(nvalues)] for _f in pkey)
            ok, res = sim.attempt(table.getrecord, *key)
            want = [r for r in model.rows if model.key(r, pkey) == key]
            if ok != bool(want) or want and res is not want[0]:
                sim.fail('wrong-lookup', 'key %s gives %s, expected %s' % (
                    core.text(key), core.text(res.row) if ok else core.exc_text(res),
                    core.text([r.row for r in want])))
            if not ok:
                sim.check(isinstance(res, KeyError), 'wrong-exception', 'lookup raised %s',
                          core.exc_text(res))

    for step in range(4 + sim.draw(22)):
        op = sim.draw(12)
        n = len(model.rows)
        if op in (0, 1, 2):
            rec = make()
            expect('append', lambda: table.append(rec), rec, model.clash(rec),
                   lambda: model.rows.append(rec))
        elif op == 3:
            rec = make()
            pos = sim.draw(n + 2) - (sim.draw(3) if sim.draw(3) == 1 else 0)
            expect('insert', lambda: table.insert(pos, rec), rec, model.clash(rec),
                   lambda: model.rows.insert(pos, rec))
        elif op in (4, 5) and n:
            i = sim.draw(n)
            old = model.rows[i]
            if op == 5 and sim.draw(2):
                # a new version of the record, with the same keys or some of them
                row = list(old.row)
                j = sim.draw(len(row))
                row[j] = VALUES[sim.draw(nvalues)]
                rec = rt(*row)
            elif sim.draw(6) == 1:
                rec = old
            else:
                rec = make()
            idx = i - n if sim.draw(4) == 1 else i

            def put():
                table[idx] = rec

            def applied():
                model.rows[i] = rec
            expect('replace', put, rec, model.clash(rec, old), applied)
        elif op in (6, 7) and n:
            i = sim.draw(n)
            k = sim.draw(4)
            sim.log('delete', i, k)
            if k == 1:
                got = sim.must('delete-failed', table.pop, i)
                sim.check(got is model.rows[i], 'wrong-records', 'popped %s', core.text(got.row))
                del model.rows[i]
            elif k == 2:
                got = sim.must('delete-failed', table.pop)
                sim.check(got is model.rows[-1], 'wrong-records', 'popped %s', core.text(got.row))
                model.rows.pop()
            else:
                idx = i - n if k == 3 else i

                def delete():
                    del table[idx]
                sim.must('delete-failed', delete)
                del model.rows[i]
        elif op == 8:
            # extend from a stream that may fail
            recs = [make() for _ in range(sim.draw(5))]
            stop = sim.draw(len(recs) + 1) if sim.draw(2) else None

            def stream():
                for j, r in enumerate(recs):
                    if j == stop:
                        raise Broken('stream')
                    yield r
            ok, res = sim.attempt(table.extend, stream())
            done = True
            for j, r in enumerate(recs):
                if j == stop:
                    sim.fault('stream')
                    sim.check(not ok and isinstance(res, Broken), 'wrong-exception',
                              'the failing stream gave %s', core.text(res))
                    done = False
                    break
                if model.clash(r):
                    sim.check(not ok and isinstance(res, KeyError), 'duplicate-accepted',
                              'extend with %s gave %s', core.text(r.row), core.text(res))
                    done = False
                    rejected[0] += 1
                    break
                model.rows.append(r)
            if done and not ok:
                sim.fail('record-rejected', 'extend: %s' % core.exc_text(res))
            sim.log('extend', [r.row for r in recs], stop)
        elif op == 9:
            # operations that fail in the middle
            rec = make()
            k = sim.draw(4)
            sim.fault('failing operation')
            if k == 0:
                rec.row[fieldnames.index(uniques[-1][-1])] = Unhashable()
                ok, res = sim.attempt(table.append, rec)
            elif k == 1 and n:
                rec.row[fieldnames.index(uniques[-1][-1])] = Unhashable()

                def put():
                    table[0] = rec
                ok, res = sim.attempt(put)
            elif k == 2:
                ok, res = sim.attempt(table.append, 'not a record')
            else:
                def delete():
                    del table[n + 3]
                ok, res = sim.attempt(delete)
            sim.check(not ok, 'bad-operation-accepted', 'kind %s', k)
            sim.log('failing', k)
        elif op == 10:
            lookups()
        elif op == 11 and n:
            i = sim.draw(n)
            rec = model.rows[i]
            sim.check(rec in table, 'wrong-membership', '%s', core.text(rec.row))
            first = [j for j, r in enumerate(model.rows) if list(r.row) == list(rec.row)][0]
            sim.check(table.index(rec) == first, 'wrong-membership', 'index of %s', i)
        consistent('step %d' % step)
        if sim.draw(3) == 0:
            lookups()
    lookups()
    # the same acceptances as a table made of the surviving records only
    fresh = sim.must('record-rejected', record.Table, rt, list(model.rows))
    for _ in range(4):
        rec = make()
        ok1, r1 = sim.attempt(table.append, rec)
        ok2, r2 = sim.attempt(fresh.append, rec)
        sim.check(ok1 == ok2, 'different-acceptance', '%s: %s in the table with the history, %s in '
                  'a fresh one', core.text(rec.row), ok1, ok2)
        sim.check(ok1 == (not model.clash(rec)), 'different-acceptance', '%s', core.text(rec.row))
        if ok1:
            model.rows.append(rec)
    consistent('the end')
    lookups()
    # building a table from a stream with a duplicate
    recs = [make() for _ in range(sim.draw(5))]
    m = Model(rt, uniques)
    bad = False
    for r in recs:
        if m.clash(r):
            bad = True
        m.rows.append(r)
    ok, res = sim.attempt(record.Table, rt, recs)
    sim.check(ok != bad, 'duplicate-accepted' if ok else 'record-rejected', 'Table of %s',
              core.text([r.row for r in recs]))
    if rejected[0]:
        sim.nontrivial = True
        sim.probe('rejected operation')
    sim.seen(len(uniques), rejected[0], len(model.rows), tuple(len(u) for u in uniques))


# ------------------------------------------------------------------ C22

# the foreign keys of the record types of records.py: {type: (fields, referenced type, fields)}
VULN = ['DiscreteVulnerabilitySet', 'DiscreteVulnerability', 'DiscreteVulnerabilityData']
VULN_KEYS = dict(
    DiscreteVulnerabilitySet=[('vulnerabilitySetID',)],
    DiscreteVulnerability=[('vulnerabilitySetID', 'vulnerabilityFunctionID')],
    DiscreteVulnerabilityData=[('vulnerabilitySetID', 'vulnerabilityFunctionID', 'IML')])
VULN_FK = dict(
    DiscreteVulnerabilitySet=[],
    DiscreteVulnerability=[(('vulnerabilitySetID',), 'DiscreteVulnerabilitySet',
                            ('vulnerabilitySetID',))],
    DiscreteVulnerabilityData=[(('vulnerabilitySetID', 'vulnerabilityFunctionID'),
                                'DiscreteVulnerability',
                                ('vulnerabilitySetID', 'vulnerabilityFunctionID'))])
OTHERS = dict(
    Exposure=dict(
        Location=[('id',), ('lon', 'lat')], Exposure=[('id',)], CostType=[('name',)],
        Asset=[('asset_ref',)], Occupancy=[('asset_ref', 'period')], Cost=[('asset_ref', 'type')]),
    GmfCollection=dict(
        GmfCollection=[('sourceModelTreePath', 'gsimTreePath')],
        GmfSet=[('stochasticEventSetId',)], Gmf=[('stochasticEventSetId', 'imtStr', 'ruptureId')],
        GmfData=[('stochasticEventSetId', 'imtStr', 'ruptureId', 'lon', 'lat')]),
    FragilityDiscrete=dict(
        FragilityDiscrete=[('format',)], FFLimitStateDiscrete=[('limitState',)],
        FFSetDiscrete=[('ordinal',)], FFDataDiscrete=[('limitState', 'ffs_ordinal', 'iml')]))


class Setup(object):
    """A converter with the constraints of its record types"""
    def __init__(self, sim):
        record, records, converter = env.boot('record', 'records', 'converter')
        self.record = record
        k = sim.draw(4)
        if k == 0:
            self.conv = converter.Vulnerability
            self.types = [getattr(records, n) for n in VULN]
            self.keys, self.fks = VULN_KEYS, VULN_FK
        elif k == 1:
            name = sim.pick(*sorted(OTHERS))
            self.conv = getattr(converter, name)
            self.keys = OTHERS[name]
            self.fks = dict((n, []) for n in self.keys)
            self.types = [getattr(records, n) for n in sorted(self.keys)]
        else:
            self.types, self.keys, self.fks = [], {}, {}
            for i in range(2 + sim.draw(4)):
                name = 'R%d' % i
                n = 2 + sim.draw(3)
                names = ['f%d' % j for j in range(n)]
                uniques = [('pkey', sim.shuffled(names)[:1 + sim.draw(2)])]
                if sim.draw(3) == 1:
                    uniques.append(('other', sim.shuffled(names)[:1 + sim.draw(2)]))
                fkeys, fks = [], []
                for j in range(sim.draw(3) if self.types else 0):
                    target = self.types[sim.draw(len(self.types))]
                    attr = sim.pick('pkey', 'other')
                    if not hasattr(target, attr):
                        attr = 'pkey'
                    tnames = tuple(getattr(target, attr).names)
                    if len(tnames) > n:
                        continue
                    mine = tuple(sim.shuffled(names)[:len(tnames)])
                    fkeys.append(('fkey%d' % j, getattr(target, attr), mine))
                    fks.append((mine, target.__name__, tnames))
                rt = make_type(sim, record, name, n, uniques, fkeys)
                self.types.append(rt)
                self.keys[name] = [tuple(u) for _a, u in uniques]
                self.fks[name] = fks
            types = self.types

            class Sim(converter.Converter):
                @classmethod
                def recordtypes(cls):
                    return types
            self.conv = Sim


class SetModel(object):
    def __init__(self, setup):
        self.setup = setup
        self.tables = dict((rt.__name__, []) for rt in setup.types)

    def outcome(self, rec):
        """'ok', or the set of errors that are right"""
        name = rec.__class__.__name__
        errs = set()
        for mine, target, theirs in self.setup.fks[name]:
            vals = [rec[f] for f in mine]
            if not any([r[f] for f in theirs] == vals for r in self.tables[target]):
                errs.add('fk')
        for names in self.setup.keys[name]:
            vals = [rec[f] for f in names]
            if any([r[f] for f in names] == vals for r in self.tables[name]):
                errs.add('dup')
        return errs


def c22(sim):
    setup = Setup(sim)
    record = setup.record
    nsets = 1 + sim.draw(3)
    sets = [sim.must('create-failed', record.TableSet, setup.conv) for _ in range(nsets)]
    models = [SetModel(setup) for _ in range(nsets)]
    nvalues = sim.pick(2, 3, 2, 5)
    sim.log('types', [rt.__name__ for rt in setup.types], setup.fks)
    rejected = [0]

    def make(rt=None):
        rt = rt or setup.types[sim.draw(len(setup.types))]
        return rt(*[VALUES[sim.draw(nvalues)] for _ in rt.fieldnames])

    def judge(what, rec, errs, ok, res):
        if not errs:
            if not ok:
                sim.fail('record-rejected', '%s of %s %s: %s' % (
                    what, rec.__class__.__name__, core.text(rec.row), core.exc_text(res)))
            return
        rejected[0] += 1
        if ok:
            sim.fail('dangling-accepted' if 'fk' in errs else 'duplicate-accepted',
                     '%s of %s %s accepted' % (what, rec.__class__.__name__, core.text(rec.row)))
        kinds = ([record.ForeignKeyError] if 'fk' in errs else []) + (
            [KeyError] if 'dup' in errs else [])
        sim.check(isinstance(res, tuple(kinds)), 'wrong-exception', '%s of %s %s (%s): %s', what,
                  rec.__class__.__name__, core.text(rec.row), sorted(errs), core.exc_text(res))

    def verify(when):
        for i, (s, m) in enumerate(zip(sets, models)):
            for name in sorted(m.tables):
                t = getattr(s, 'table' + name)
                got, want = list(t), m.tables[name]
                if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                    sim.fail('wrong-records', '%s: table %s of set %d has %s instead of %s' % (
                        when, name, i, core.text([r.row for r in got]),
                        core.text([r.row for r in want])))
                for r in want[:3]:
                    k = [r[f] for f in setup.keys[name][0]]
                    ok, res = sim.attempt(t.getrecord, *k)
                    sim.check(ok and res is r, 'wrong-lookup', '%s: key %s of %s', when,
                              core.text(k), name)
            full = [t.recordtype.__name__ for t in s]
            sim.check(sorted(full) == sorted(n for n in m.tables if m.tables[n]), 'wrong-records',
                      '%s: non-empty tables %s', when, core.text(full))

    class Stream(object):
        """A stream into set i, that may fail, and may feed another set in between"""
        def __init__(self, i, recs, fail, nested):
            self.i, self.recs, self.fail, self.nested = i, recs, fail, nested
            self.taken = 0

        def __iter__(self):
            for j, r in enumerate(self.recs):
                if j == self.fail:
                    raise Broken('stream')
                if j in self.nested:
                    other, rec = self.nested[j]
                    single(other, rec)
                self.taken += 1
                yield r

    def single(i, rec):
        errs = models[i].outcome(rec)
        ok, res = sim.attempt(sets[i].insert, rec)
        judge('insert', rec, errs, ok, res)
        if not errs:
            models[i].tables[rec.__class__.__name__].append(rec)
        sim.log('insert', i, rec.__class__.__name__, rec.row, sorted(errs))

    def bulk(i):
        recs = [make() for _ in range(sim.draw(8))]
        fail = sim.draw(len(recs) + 1) if sim.draw(3) == 1 else None
        nested = {}
        if nsets > 1:
            for j in range(len(recs)):
                if sim.draw(5) == 1:
                    o = (i + 1 + sim.draw(nsets - 1)) % nsets
                    nested[j] = (o, make())
        sim.log('bulk', i, [(r.__class__.__name__, r.row) for r in recs], fail)
        st = Stream(i, recs, fail, nested)
        ok, res = sim.attempt(sets[i].insert_all, st)
        for j, r in enumerate(recs):
            if j == fail:
                sim.fault('stream')
                sim.check(not ok and isinstance(res, Broken), 'wrong-exception',
                          'the failing stream gave %s', core.text(res))
                return
            errs = models[i].outcome(r)
            if errs:
                judge('bulk insert', r, errs, ok, res)
                sim.check(st.taken == j + 1, 'stream-read-on', 'after the rejection of record %s, '
                          '%s were taken', j, st.taken)
                return
            models[i].tables[r.__class__.__name__].append(r)
        if fail is not None and fail == len(recs):
            # (the generator ended before it could fail)
            pass
        if not ok:
            sim.fail('record-rejected', 'bulk insert: %s' % core.exc_text(res))

    def change(i):
        """Deletion or replacement of a record through its table"""
        names = [n for n in sorted(models[i].tables) if models[i].tables[n]]
        if not names:
            return
        name = names[sim.draw(len(names))]
        rows = models[i].tables[name]
        t = getattr(sets[i], 'table' + name)
        j = sim.draw(len(rows))
        if sim.draw(2):
            def delete():
                del t[j]
            sim.must('delete-failed', delete)
            del rows[j]
            sim.log('delete', i, name, j)
            return
        rec = make(rows[j].__class__)
        errs = set()
        for keynames in setup.keys[name]:
            if any(r is not rows[j] and [r[f] for f in keynames] == [rec[f] for f in keynames]
                   for r in rows):
                errs.add('dup')

        def put():
            t[j] = rec
        ok, res = sim.attempt(put)
        judge('replacement', rec, errs, ok, res)
        if not errs:
            rows[j] = rec
        sim.log('replace', i, name, j, rec.row, sorted(errs))

    def concurrent():
        """Streams into all the sets, in threads of their own"""
        th = core.Threads(sim, mean=20)
        plans = []
        for i in range(nsets):
            recs = [make() for _ in range(1 + sim.draw(4))]
            plans.append(recs)
            th.spawn('load%d' % i, sets[i].insert_all, recs)
        th.run()
        for i, t in enumerate(th.threads):
            stopped = False
            for r in plans[i]:
                errs = models[i].outcome(r)
                if errs:
                    judge('concurrent insert', r, errs, t.ok, t.value)
                    stopped = True
                    break
                models[i].tables[r.__class__.__name__].append(r)
            if not stopped and not t.ok:
                sim.fail('record-rejected', 'concurrent insert: %s' % core.exc_text(t.value))
        sim.log('concurrent')

    for step in range(4 + sim.draw(14)):
        op = sim.draw(10)
        i = sim.draw(nsets)
        if op < 4:
            single(i, make())
        elif op < 7:
            bulk(i)
        elif op < 9:
            change(i)
        elif nsets > 1 and sim.draw(2):
            concurrent()
        else:
            rec = make()
            ok, res = sim.attempt(sets[i].insert, 'no record')
            sim.check(not ok, 'bad-operation-accepted', 'a string was inserted')
        verify('step %d' % step)
    if rejected[0]:
        sim.nontrivial = True
        sim.probe('rejected record')
    if nsets > 1:
        sim.probe('several sets')
    sim.seen(setup.conv.__name__, nsets, rejected[0],
             tuple(sorted((n, len(v)) for n, v in models[0].tables.items())))


WORKLOADS = dict(C21=c21, C22=c22)
