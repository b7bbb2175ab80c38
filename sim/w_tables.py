# Workload over openquake.commonlib.csvmanager as a store of tables: records written by managers
# and read back, with readers that are interleaved, abandoned and resumed.
import core
import env
from w_storage import Arch, FIELDS, BYMODEL, boot

TEXTS = ['', 'a', ' padded ', 'a,b', 'say "hi"', '""', '"', 'two\nlines', '\n', "it's", 'a;b\tc',
         '#', 'caf\xc3\xa9', '0', '1.0', '-', 'x' * 600, 'tail\n', 'c\r\nd', 'e\rf', '\\n', '\\"']


class Reader(object):
    """A reader in the middle of a table"""
    def __init__(self, sim, man, rt, fname, want):
        self.sim, self.rt, self.fname, self.want = sim, rt, fname, want
        self.it = sim.must('read-failed', man.read, rt)
        self.pos = 0
        self.done = False

    def advance(self, n):
        sim = self.sim
        for _ in range(n):
            ok, rec = sim.attempt(next, self.it)
            if self.pos == len(self.want):
                sim.check(not ok and isinstance(rec, StopIteration), 'wrong-records',
                          '%s: %s after the last record', self.fname, core.text(rec))
                self.done = True
                return
            if not ok:
                sim.fail('read-failed' if not isinstance(rec, StopIteration) else 'wrong-records',
                         '%s: %s instead of record %d of %d' % (
                             self.fname, core.exc_text(rec), self.pos, len(self.want)))
            same(sim, self.rt, self.fname, self.pos, rec, self.want[self.pos])
            self.pos += 1


def same(sim, rt, fname, i, rec, row):
    if type(rec) is not rt or list(rec) != row:
        sim.fail('wrong-records', '%s: record %d is %s instead of %s' % (
            fname, i, core.text(getattr(rec, 'row', rec)), core.text(row)))


def draw_row(sim, rt):
    row = []
    for _f, (good, wrong) in FIELDS[rt][1]:
        k = sim.draw(5)
        if k < 3:
            row.append(good[sim.draw(len(good))])
        elif k == 3 and wrong:
            # nothing is validated on the way
            row.append(wrong[sim.draw(len(wrong))])
        else:
            row.append(TEXTS[sim.draw(len(TEXTS))])
    return row


class Store(object):
    def __init__(self, sim):
        self.sim = sim
        self.cm = boot(sim)
        self.kind = sim.pick('dir', 'mem', 'zip', 'mkdir', 'mkzip')
        self.spec = Arch(sim, self.cm, self.kind, 'arch')
        self.arch = sim.must('create-failed', self.spec.create)
        self.tables = {}        # (prefix, rt, header) -> rows
        self.headers = {}       # prefix -> header or not
        self.prefixes = sim.shuffled(['model', 'mod', 'a b', 'model-2', '', 'x.y'])[
            :1 + sim.draw(3)]
        self.headers = dict((p, sim.draw(4) > 0) for p in self.prefixes)
        models = sorted(BYMODEL)
        self.types = dict((p, list(BYMODEL[models[sim.draw(len(models))]])) for p in self.prefixes)
        self.readers = []
        self.started = []       # all of them: none is left to the garbage collector
        self.managers = {}

    def finish(self):
        for r in self.started:
            r.it.close()
        self.readers, self.started = [], []

    def fname(self, p, rt):
        return '%s__%s.csv' % (p, rt)

    def rectype(self, rt):
        return getattr(self.cm.records, rt)

    def manager(self, p):
        """A manager for the tables of the prefix, new or not"""
        sim = self.sim
        if p in self.managers and sim.draw(2):
            return self.managers[p]
        man = self.cm.CSVManager(self.arch, p) if self.headers[p] and sim.draw(2) else \
            self.cm.CSVManager(self.arch, p, self.headers[p])
        self.managers[p] = man
        return man

    def write(self):
        """Some tables are written (anew), by one or two managers at a time"""
        sim = self.sim
        many = sim.shuffled(self.prefixes)[:1 + sim.draw(2)]
        one = len(many) == 1
        mans = dict((p, self.cm.CSVManager(self.arch, p, self.headers[p])) for p in many)
        stream = []
        for p in many:
            for rt in sim.shuffled(self.types[p])[:1 + sim.draw(3)]:
                n = sim.pick(1, 2, 5, 0, 30)
                stream += [(p, rt) for _ in range(n)]
        if sim.draw(2):
            stream = sim.shuffled(stream)
        new = {}

        def send():
            for p, rt in stream:
                row = draw_row(sim, rt)
                mans[p].write(self.rectype(rt)(*row))
                new.setdefault((p, rt), []).append(row)
                # reading the other tables meanwhile
                if self.readers and sim.draw(6) == 1:
                    self.advance()
        busy = set(stream)
        self.readers = [r for r in self.readers if r.key not in busy]
        if one and sim.draw(2):
            [(p, man)] = mans.items()
            if p in self.managers and sim.draw(2):
                # the same manager as before
                man = mans[p] = self.managers[p]
            self.managers[p] = man
            self.readers = []

            def use():
                with man:
                    send()
            sim.must('write-failed', use)
        else:
            sim.must('write-failed', send)
            sim.must('write-failed', self.arch.close)
        # closing the archive ends the readers
        self.readers = []
        self.tables.update(new)
        sim.log('write', [(p, rt, len(rows)) for (p, rt), rows in sorted(new.items())])
        if self.kind.endswith('zip'):
            # a second version of a file would be a second member of the archive
            for p, rt in new:
                self.types[p].remove(rt)
            self.prefixes = [p for p in self.prefixes if self.types[p]]

    def written(self):
        return sorted(self.tables)

    def start(self):
        sim = self.sim
        p, rt = key = sim.choice(self.written())
        r = Reader(sim, self.manager(p), self.rectype(rt), self.fname(p, rt), self.tables[key])
        r.key = key
        self.started.append(r)
        if len(self.readers) < 4:
            self.readers.append(r)
        else:
            self.readers[sim.draw(4)] = r      # abandoned

    def advance(self):
        r = self.sim.choice(self.readers)
        r.advance(1 + self.sim.draw(4))
        if r.done:
            self.readers.remove(r)
        if len(self.readers) > 1:
            self.sim.nontrivial = True

    def read(self):
        """A whole table, in one of the ways there are"""
        sim = self.sim
        p, rt = key = sim.choice(self.written())
        want = self.tables[key]
        man, cls = self.manager(p), self.rectype(rt)
        if sim.draw(3):
            recs = sim.must('read-failed', lambda: list(man.read(cls)))
        else:
            clash = duplicates(self.cm, cls, want)
            ok, recs = sim.attempt(man.readtable, cls)
            if clash:
                sim.check(not ok and isinstance(recs, KeyError), 'duplicates-accepted', '%s: %s',
                          self.fname(p, rt), core.text(recs))
                return
            sim.check(ok, 'read-failed', '%s: %s', self.fname(p, rt), core.text(recs))
            sim.check(recs.recordtype is cls, 'wrong-records', 'table of %s', recs.recordtype)
        sim.check(len(recs) == len(want), 'wrong-records', '%s: %s records instead of %s',
                  self.fname(p, rt), len(recs), len(want))
        for i, rec in enumerate(recs):
            same(sim, cls, self.fname(p, rt), i, rec, want[i])

    def mistake(self):
        """A table that is not there, or the wrong idea of its header"""
        sim = self.sim
        p = sim.choice(sorted(self.types))
        if sim.draw(2):
            missing = [rt for rt in sorted(FIELDS) if (p, rt) not in self.tables]
            rt = sim.choice(missing)
            ok, res = sim.attempt(lambda: list(self.manager(p).read(self.rectype(rt))))
            sim.check(not ok and isinstance(res, self.cm.NotInArchive), 'missing-read', '%s: %s',
                      self.fname(p, rt), core.text(res))
            return
        if not self.tables:
            return
        p, rt = key = sim.choice(self.written())
        names = [n for n, _gw in FIELDS[rt][1]]
        man = self.cm.CSVManager(self.arch, p, not self.headers[p])
        ok, res = sim.attempt(lambda: list(man.read(self.rectype(rt))))
        if self.headers[p]:
            # the header is the first record
            sim.check(ok and [list(r) for r in res] == [names] + self.tables[key], 'wrong-records',
                      '%s without header: %s', self.fname(p, rt), core.text(res))
        elif self.tables[key][0] != names:
            sim.check(not ok and isinstance(res, self.cm.InvalidFile), 'bad-header-accepted',
                      '%s: %s', self.fname(p, rt), core.text(res))

    def restart(self):
        """Another process goes on with the archive"""
        sim = self.sim
        if self.kind == 'mem':
            return
        self.finish()
        self.managers = {}
        sim.must('close-failed', self.arch.close)
        self.arch = None
        env.collect(sim)
        sim.fs.new_process()
        self.cm = self.spec.cm = boot(sim)
        self.arch = sim.must('open-failed', self.spec.reopen, True)
        sim.log('restart')

    def listing(self):
        sim = self.sim
        names = sim.must('list-failed', self.arch.extract_filenames)
        want = sorted(self.fname(p, rt) for p, rt in self.tables)
        sim.check(sorted(names) == want, 'wrong-names', '%s instead of %s', sorted(names), want)


def duplicates(cm, cls, rows):
    for u in cls.get_descriptors(cm.record.Unique):
        where = [cls.fieldnames.index(n) for n in u.names]
        keys = [tuple(row[i] for i in where) for row in rows]
        if len(set(keys)) < len(keys):
            return True
    return False


def make_table(sim, store):
    """A table from a text"""
    rt = sim.choice(sorted(FIELDS))
    cls = store.rectype(rt)
    rows = [[good[sim.draw(len(good))] for _f, (good, _w) in FIELDS[rt][1]]
            for _ in range(sim.draw(5))]
    rows = [['plain' if c in ('a,b', 'x"y') else c for c in row] for row in rows]
    rows = [row if row != [''] else ['x'] for row in rows]
    if sim.draw(4) == 1:
        # no header, even if it looks so
        rows.insert(0, list(cls.fieldnames))
    text = ''.join(','.join(row) + '\n' for row in rows)
    ok, res = sim.attempt(store.cm.create_table, cls, text)
    if duplicates(store.cm, cls, rows):
        sim.check(not ok and isinstance(res, KeyError), 'duplicates-accepted', '%s: %s', rt,
                  core.text(res))
    else:
        sim.check(ok and [list(r) for r in res] == rows, 'wrong-records', 'table of %s: %s', rows,
                  core.text(res))


def c32(sim):
    s = Store(sim)
    try:
        steps(sim, s)
    finally:
        s.finish()


def steps(sim, s):
    s.write()
    for _ in range(4 + sim.draw(16)):
        k = sim.draw(12)
        if sim.draw(4) == 1:
            sim.fs.short_reads = 50
        if k in (0, 1, 2) and s.tables:
            s.start()
        elif k in (3, 4, 5) and s.readers:
            s.advance()
        elif k in (6, 7) and s.tables:
            s.read()
        elif k == 8 and s.prefixes:
            s.write()
        elif k == 9:
            s.mistake()
        elif k == 10:
            s.restart()
        else:
            make_table(sim, s)
        sim.fs.short_reads = 0
    s.listing()
    for key in s.written():
        p, rt = key
        got = sim.must('read-failed', lambda: [
            list(r) for r in s.manager(p).read(s.rectype(rt))])
        sim.check(got == s.tables[key], 'wrong-records', '%s: %s instead of %s', s.fname(p, rt),
                  core.text(got), core.text(s.tables[key]))
    sim.seen(s.kind, len(s.headers), tuple(sorted(s.headers.values())), len(s.tables),
             min(9, sum(map(len, s.tables.values())) // 10))


WORKLOADS = dict(C32=c32)
