# Workloads over openquake.commonlib.csvmanager (+ converter, record, records,
# valid, bin/NRMLconvert.py): archives, CSV files and conversions over the
# simulated file system, with faults, kills and restarts.
import os
import zipfile
import core
import env
import nrmlgen

ROOT = '/sim/job'
NAMES = ['a', 'ab', 'a.csv', 'b', 'model__X.csv', 'model__Y.csv', 'z.txt', 'b.xml']
MORE = ['A', 'B.xml', 'old-model__X.csv', 'Model__X.csv', 'x', '_', 'a b', 'mod']
DIRS = ['', '', '', 'data.zip.d/', 'x.y/', 'deep/er/']


def boot(sim):
    sim.line_budget = 4000000
    return env.boot('csvmanager')


def content(sim, lines=False):
    k = sim.draw(7)
    if k == 0:
        return ''
    if k == 1:
        return 'x'
    if k == 2:
        return 'line %d\n' % sim.draw(100)
    if k == 3:
        return ''.join('row,%d,"q\nr"\n' % i for i in range(1 + sim.draw(5)))
    if k == 4:
        return 'no newline %d' % sim.draw(100)
    if k == 5:
        return 'y' * sim.pick(511, 512, 513, 1500, 4000) + 'end%d' % sim.draw(50)
    return '\n\nblank\n%d\r\n' % sim.draw(10)


class Arch(object):
    """How an archive is created and opened again, by kind"""
    KINDS = ('mkdir', 'mkzip', 'dir', 'zip', 'mem')

    def __init__(self, sim, cm, kind, name):
        self.sim = sim
        self.cm = cm
        self.kind = kind
        name = DIRS[sim.draw(len(DIRS))] + name
        sim.fs.mkdirs(ROOT + '/' + os.path.dirname(name))
        if kind.endswith('zip'):
            name += '.zip'
        else:
            name += sim.pick('', '', '-zip', '.zip.bak')
        self.path = ROOT + '/' + name if sim.draw(2) else name
        self.items = []

    def create(self):
        sim, cm = self.sim, self.cm
        if self.kind == 'mem':
            return cm.MemArchive(self.items)
        if self.kind == 'mkdir':
            return cm.mkarchive(self.path, sim.pick('w', 'w+', 'r+'))
        if self.kind == 'dir':
            return cm.DirArchive(self.path, sim.pick('w', 'w+', 'r+'))
        if self.kind == 'mkzip':
            return cm.mkarchive(self.path, sim.pick('w', 'w+', 'r+', 'a'))
        if sim.draw(2):
            return cm.ZipArchive(self.path, 'w')
        return cm.ZipArchive(self.path)

    def reopen(self, update):
        """Open an existing archive; update: it has to be writable"""
        sim, cm = self.sim, self.cm
        if self.kind == 'mkdir':
            modes = ('r+', 'w', 'w+', 'a')
            return cm.mkarchive(self.path, sim.pick(*(modes if update else ('r',) + modes)))
        if self.kind == 'dir':
            if not update and sim.draw(2):
                return cm.DirArchive(self.path)
            return cm.DirArchive(self.path, sim.pick('r+', 'w', 'w+'))
        if self.kind == 'mkzip':
            return cm.mkarchive(self.path, sim.pick(*(('r+', 'a') if update else ('r', 'r+', 'a'))))
        if not update and sim.draw(2):
            return cm.ZipArchive(self.path, 'r')
        return cm.ZipArchive(self.path) if sim.draw(2) else cm.ZipArchive(self.path, 'a')


def readall(sim, f):
    """Read a file to its end in one of several ways"""
    k = sim.draw(5)
    if k == 0:
        return f.read()
    if k == 1:
        return ''.join(list(f))
    if k == 2:
        out = []
        while True:
            line = f.readline()
            if not line:
                return ''.join(out)
            out.append(line)
    if k == 3:
        out = []
        n = sim.pick(1, 7, 600)
        while True:
            part = f.read(n)
            if not part:
                return ''.join(out)
            out.append(part)
    first = f.readline()
    return first + f.read()


def write_chunks(sim, f, data):
    pos = 0
    while pos < len(data):
        n = 1 + sim.draw(len(data) - pos) if sim.draw(2) else len(data) - pos
        f.write(data[pos:pos + n])
        pos += n
        if sim.draw(8) == 1:
            f.flush()


# ------------------------------------------------------------------ C08

def c08(sim):
    cm = boot(sim)
    kind = sim.pick('mkdir', 'mkzip', 'mem', 'dir', 'zip')
    spec = Arch(sim, cm, kind, 'arch')
    model = {}
    names_ = list(NAMES)
    if sim.draw(2):
        names_ = sim.shuffled(NAMES + MORE)[:8]
    if kind.endswith(('zip', 'mem')) and sim.draw(4) == 1:
        names_[:3] = ['a/x.csv', 'b/x.csv', 'x.csv']
    if kind == 'mem' and sim.draw(2):
        for n in sim.shuffled(names_)[:1 + sim.draw(3)]:
            model[n] = content(sim)
            spec.items.append((n, model[n]))
    arch = sim.must('create-failed', spec.create)
    can_reopen = kind != 'mem'
    writers = {}         # name -> [file, data so far]
    readers = []         # [name, file, rest]
    writable = True
    sim.log('archive', kind)

    def closed(name):
        f, data = writers.pop(name)
        model[name] = data

    def close_archive():
        how = sim.draw(3)
        if how == 2 and kind != 'mem':
            def use():
                with arch:
                    pass
            sim.must('close-failed', use)
        else:
            sim.must('close-failed', arch.close)
        for n in sorted(writers):
            closed(n)
        del readers[:]

    def check_read(name, what):
        if writers.get(name):
            return
        mode = sim.draw(3)
        if name not in model:
            files = sim.fs.tree('/sim')
            ok, res = sim.attempt(arch.open, name) if mode else sim.attempt(arch.open, name, 'r')
            if ok:
                sim.fail('missing-opened', 'opening the missing %s gave a file (%s)' % (name, what))
            if not isinstance(res, cm.NotInArchive):
                sim.fail('wrong-missing-error', 'opening the missing %s raised %s' % (
                    name, core.exc_text(res)))
            sim.check(sim.fs.tree('/sim') == files, 'missing-created', 'opening %s', name)
            return
        if mode == 2:
            def use():
                with arch.open(name) as f:
                    return readall(sim, f)
            got = sim.must('read-failed', use)
        else:
            f = sim.must('open-failed', arch.open, name)
            got = sim.must('read-failed', readall, sim, f)
            if mode == 0:
                sim.must('close-failed', f.close)
        if got != model[name]:
            sim.fail('wrong-content', '%s of %s: got %s, expected %s' % (
                what, name, core.text(got), core.text(model[name])))

    def check_list():
        prefixes = ['', 'nothing']
        for _ in range(3):
            n = names_[sim.draw(len(names_))]
            start = 0 if sim.draw(2) else sim.draw(len(n))
            prefixes.append(n[start:start + 1 + sim.draw(len(n))])
        if sim.draw(2):
            prefixes.append(prefixes[-1].upper())
        for prefix in prefixes:
            names = sim.must('listing-failed', arch.extract_filenames, prefix) if prefix or \
                sim.draw(2) else sim.must('listing-failed', arch.extract_filenames)
            names = list(names)
            sim.check(len(set(names)) == len(names), 'wrong-listing', 'duplicates in %s', core.text(sorted(names)))
            want = set(n for n in model if n.startswith(prefix)) - set(writers)
            got = set(names) - set(writers)
            if got != want:
                sim.fail('wrong-listing', 'prefix %r: got %s, expected %s' % (
                    prefix, core.text(sorted(got)), core.text(sorted(want))))

    def check_contains(name):
        if name in writers:
            # whatever it says, it changes nothing
            sim.must('membership-failed', arch.__contains__, name)
            return
        files = sim.fs.tree('/sim')
        got = sim.must('membership-failed', arch.__contains__, name)
        sim.check(got == (name in model), 'wrong-membership', '%s: got %s', name, got)
        sim.check(sim.fs.tree('/sim') == files, 'membership-changed-files', '%s', name)

    for step in range(3 + sim.draw(14)):
        op = sim.draw(12)
        name = names_[sim.draw(len(names_))]
        sim.log('op', op, name)
        if op == 11:
            # a long history
            if sim.draw(4) != 1 or not writable:
                continue
            for i in range(5 + sim.draw(40)):
                n = names_[sim.draw(len(names_))]
                if n in writers:
                    check_contains(n)
                elif sim.draw(3) == 1:
                    check_read(n, 'read')
                else:
                    f = sim.must('open-failed', arch.open, n, 'w')
                    sim.must('write-failed', f.write, str(i))
                    if i and sim.draw(3):
                        sim.must('close-failed', f.close)
                        model[n] = str(i)
                    else:
                        writers[n] = [f, str(i)]
            readers[:] = []
            sim.probe('long history')
            continue
        if op in (0, 1, 2):
            # write
            if not writable or name in writers:
                continue
            readers[:] = [r for r in readers if r[0] != name]
            data = content(sim)
            mode = sim.pick('w', 'w', 'w+')
            f = sim.must('open-failed', arch.open, name, mode)
            if op == 0:
                def use():
                    with f:
                        write_chunks(sim, f, data)
                sim.must('write-failed', use)
                model[name] = data
                sim.log('wrote', name, data)
            else:
                sim.must('write-failed', write_chunks, sim, f, data)
                writers[name] = [f, data]
                if op == 1:
                    sim.must('close-failed', f.close)
                    if sim.draw(4) == 1:
                        sim.must('close-failed', f.close)
                    closed(name)
                else:
                    sim.nontrivial = True
                    sim.probe('writer left open')
        elif op == 3 and writers:
            n = sorted(writers)[sim.draw(len(writers))]
            more = content(sim)
            w = writers[n]
            sim.must('write-failed', w[0].write, more)
            w[1] += more
            sim.must('close-failed', w[0].close)
            closed(n)
        elif op == 4:
            check_read(name, 'read')
        elif op == 5:
            # interleaved readers
            names = [n for n in sorted(model) if n not in writers]
            if not names:
                continue
            n = names[sim.draw(len(names))]
            other = n if sim.draw(3) else names[sim.draw(len(names))]
            k1, k2 = sim.draw(20), sim.draw(20)
            f1 = sim.must('open-failed', arch.open, n)
            p1 = sim.must('read-failed', f1.read, k1)
            f2 = sim.must('open-failed', arch.open, other)
            p2 = sim.must('read-failed', f2.read, k2)
            if sim.draw(2):
                rest1 = sim.must('read-failed', f1.read)
                if sim.draw(2):
                    sim.must('close-failed', f1.close)
                rest2 = sim.must('read-failed', f2.read)
            else:
                if sim.draw(2):
                    rest2 = sim.must('read-failed', f2.read)
                    sim.must('close-failed', f2.close)
                else:
                    rest2 = sim.must('read-failed', f2.read)
                rest1 = sim.must('read-failed', f1.read)
            sim.nontrivial = True
            sim.probe('two readers')
            if (p1 + rest1, p2 + rest2) != (model[n], model[other]):
                sim.fail('wrong-content', 'interleaved readers of %s and %s: got %s and %s' % (
                    n, other, core.text(p1 + rest1, 100), core.text(p2 + rest2, 100)))
        elif op == 6:
            check_list()
        elif op == 7:
            check_contains(name)
        elif op == 8:
            close_archive()
            sim.probe('archive closed')
        elif op == 9 and can_reopen:
            close_archive()
            update = sim.draw(3) > 0
            if sim.draw(2):
                env.collect(sim)
            if sim.draw(3) == 1:
                # another process
                env.collect(sim)
                sim.fs.new_process()
                spec.cm = cm = boot(sim)
                sim.probe('restart')
            sim.nontrivial = True
            arch = sim.must('reopen-failed', spec.reopen, update)
            writable = update
            sim.log('reopened', update)
        elif op == 10:
            check_read(name, 'read')
            check_read(name, 'second read')
    close_archive()
    for name in names_:
        check_read(name, 'final read')
        check_contains(name)
    check_list()
    sim.check(isinstance(repr(arch), str), 'bad-repr', '')
    if can_reopen:
        env.collect(sim)
        sim.fs.new_process()
        spec.cm = cm = boot(sim)
        arch = sim.must('reopen-failed', spec.reopen, False)
        for name in names_:
            check_read(name, 'read in a new process')
        check_list()
    sim.seen(kind, tuple(sorted((n, len(model[n])) for n in model)), step)


# ------------------------------------------------------------------ C09

def c09(sim):
    cm = boot(sim)
    if sim.draw(4) == 0:
        return readonly(sim, cm)
    kind = sim.pick('mkdir', 'mkzip', 'dir', 'zip')
    is_zip = kind.endswith('zip')
    spec = Arch(sim, cm, kind, 'arch')
    durable = {}      # what a fresh process has to find
    maybe = {}        # name -> set of contents it may find instead
    state = dict(kinds=0)

    def session(first, nops, writes):
        """One process; returns when it ends or raises SimKilled"""
        arch = spec.create() if first else spec.reopen(writes)
        pending = {}
        for _ in range(nops):
            op = sim.draw(7)
            name = NAMES[sim.draw(len(NAMES))]
            if not writes and op in (0, 1, 2):
                op = 4
            if op in (0, 1, 2) and name not in pending:
                data = content(sim)
                if is_zip:
                    # the directory of the archive is being rewritten
                    state['dirty'] = True
                maybe.setdefault(name, []).append(data)
                state['writing'] = name
                f = arch.open(name, 'w')
                write_chunks(sim, f, data)
                if op == 2:
                    pending[name] = data, f
                    continue
                f.close()
                pending.pop(name, None)
                if is_zip:
                    state['closed'][name] = data
                else:
                    durable[name] = data
                    maybe.pop(name)
                sim.log('completed', name)
            elif op == 3:
                arch.close()
                for n in sorted(pending):
                    state['closed'][n] = pending.pop(n)[0]
                durable.update(state['closed'])
                for n in state['closed']:
                    maybe.pop(n, None)
                state['closed'] = {}
                state['dirty'] = False
                sim.log('closed archive')
            elif op == 4 and name not in pending:
                if name in durable and not maybe.get(name):
                    got = arch.open(name).read()
                    sim.check(got == durable[name], 'wrong-content', 'in the session: %s: %s',
                              name, core.text(got))
                else:
                    name in arch
            elif op == 5:
                arch.extract_filenames()
            elif op == 6 and name not in pending:
                name in arch
        if sim.draw(2) and writes:
            arch.close()
            for n in sorted(pending):
                state['closed'][n] = pending.pop(n)[0]
            durable.update(state['closed'])
            for n in state['closed']:
                maybe.pop(n, None)
            state['closed'] = {}
            state['dirty'] = False
            sim.log('closed archive')

    first = True
    for s in range(2 + sim.draw(3)):
        state.update(dirty=False, writing=None, closed={})
        writes = first or sim.draw(3) > 0
        if sim.draw(4):
            sim.fs.arm_kill(sim.draw(60 if writes else 15))
        killed = False
        before = dict(durable)
        try:
            ok = True
            session(first, 1 + sim.draw(8), writes)
            if sim.draw(2):
                # the process is killed after its last operation, without any cleanup
                sim.fs.kill()
                killed = True
            else:
                sim.fs.kill_at = None
                env.collect(sim)
                for n in state['closed']:
                    durable[n] = state['closed'][n]
                # files left open complete on exit or not
                state['dirty'] = False
        except core.SimKilled:
            killed = True
        except (core.Violation, core.HarnessError, core.SimHang, core.Unfinished):
            raise
        except Exception as e:
            sim.fail('operation-failed', core.exc_text(e))
        sim.fs.new_process()
        sim.log('session', s, killed, sorted(durable))
        cm = spec.cm = boot(sim)
        exists = sim.fs.norm(spec.path) in sim.fs.nodes
        if is_zip and state['dirty']:
            # killed while the zip file was being changed: nothing is promised,
            # start from scratch
            sim.probe('zip changed when killed')
            if exists:
                os.unlink(spec.path)
            durable.clear()
            maybe.clear()
            first = True
            continue
        if is_zip and killed and first and not durable and not state['closed']:
            # no directory was ever written
            if exists and not closed_zip(sim, spec.path):
                os.unlink(spec.path)
                maybe.clear()
                continue
        if not exists:
            sim.check(not durable, 'lost', 'the archive does not exist, it had %s', sorted(durable))
            continue
        first = False
        arch = sim.must('reopen-failed', spec.reopen, False)
        for n in sorted(durable):
            allowed = [durable[n]]
            half = n in maybe
            ok, res = sim.attempt(lambda: arch.open(n).read())
            if half:
                continue
            if not ok:
                sim.fail('lost', 'reading the committed %s raised %s' % (n, core.exc_text(res)))
            sim.check(res in allowed, 'lost', '%s has %s instead of %s', n, core.text(res),
                      core.text(durable[n]))
            sim.check(sim.must('membership-failed', arch.__contains__, n), 'lost',
                      '%s is not in the archive', n)
        names = set(sim.must('listing-failed', arch.extract_filenames))
        sim.check(set(durable) - set(maybe) <= names, 'lost', 'listing %s, committed %s',
                  sorted(names), sorted(durable))
        for n in sorted(maybe):
            # whatever it is now, it is what it is from now on
            ok, res = sim.attempt(lambda: arch.open(n).read())
            durable.pop(n, None)
            if ok:
                durable[n] = res
        maybe.clear()
        sim.must('close-failed', arch.close)
        env.collect(sim)
        sim.fs.new_process()
        sim.seen(kind, killed, len(durable), writes, state['writing'] is None)


def closed_zip(sim, path):
    try:
        zipfile.ZipFile(path, 'r').close()
    except Exception:
        return False
    return True


def readonly(sim, cm):
    """Nothing that only reads changes the bytes of an archive"""
    kind = sim.pick('mkdir', 'mkzip', 'dir', 'zip')
    spec = Arch(sim, cm, kind, 'arch')
    model = nrmlgen.KINDS[sim.draw(len(nrmlgen.KINDS))]
    text = nrmlgen.Gen(sim).make(model)
    sim.fs.put(ROOT + '/model.xml', text)
    arch = sim.must('create-failed', spec.create)
    man = cm.CSVManager(arch, 'model')
    ok, _res = sim.attempt(man.convert_from_nrml, ROOT + '/model.xml')
    mem = cm.MemArchive([])
    if ok:
        ok, _res = sim.attempt(cm.CSVManager(arch, 'model').convert_to_nrml, mem)
    if not ok:
        # a matter of C11
        return
    arch.close()
    sim.fs.kill()
    sim.fs.new_process()
    cm = spec.cm = boot(sim)
    if sim.draw(2):
        # the archive has files of other sessions, also named like the output
        arch = sim.must('reopen-failed', spec.reopen, True)
        for name in sim.subset(['model.xml', 'model__GmfSet.csv.bak', 'notes.txt', 'model.csv']):
            with arch.open(name, 'w') as f:
                f.write(content(sim))
        arch.close()
        env.collect(sim)
        sim.fs.new_process()
        cm = spec.cm = boot(sim)
    before = under(sim, spec.path)
    sim.check(before, 'lost', 'no file after the conversion')
    outs = 0
    for s in range(1 + sim.draw(3)):
        arch = sim.must('reopen-failed', spec.reopen, False)
        names = sorted(arch.extract_filenames())
        kill = sim.draw(3) == 1
        if kill:
            sim.fs.arm_kill(sim.draw(40))
        try:
            for _ in range(1 + sim.draw(4)):
                op = sim.draw(6)
                sim.log('op', op)
                if op == 0 and names:
                    arch.open(names[sim.draw(len(names))]).read()
                elif op == 1:
                    'nothing' in arch
                    names and names[0] in arch
                elif op == 2:
                    arch.extract_filenames('m')
                elif op == 3:
                    arch.close()
                elif op == 4:
                    cm.CSVManager(arch, 'model').find_invalid()
                elif op == 5:
                    outs += 1
                    out = cm.MemArchive([]) if sim.draw(2) else \
                        cm.mkarchive(ROOT + '/out%d' % outs, 'w')
                    cm.CSVManager(arch, 'model').convert_to_nrml(out)
            if sim.draw(2):
                arch.close()
        except core.SimKilled:
            pass
        except (core.Violation, core.HarnessError, core.SimHang, core.Unfinished):
            raise
        except Exception as e:
            sim.fail('operation-failed', core.exc_text(e))
        if not sim.fs.frozen and sim.draw(2):
            sim.fs.kill_at = None
            env.collect(sim)
        sim.fs.new_process()
        cm = spec.cm = boot(sim)
        sim.check(under(sim, spec.path) == before, 'changed-by-reading',
                  'files of %s changed by session %s', kind, s)
    sim.nontrivial = True
    sim.seen('readonly', kind, model)


def under(sim, path):
    p = sim.fs.norm(path)
    d = dict((q, v) for q, v in sim.fs.tree('/sim').items()
             if q == p or q.startswith(p + '/'))
    return d


def same_model(sim, text, got, what):
    want = nrmlgen.canonical(text)
    try:
        have = nrmlgen.canonical(got)
    except ValueError as e:
        sim.fail('wrong-model', '%s: %s' % (what, e))
    if have != want:
        sim.fail('wrong-model', '%s: %s' % (what, nrmlgen.describe(have, want)))


# ------------------------------------------------------------------ C10

def c10(sim):
    """Faults: raise, or complete and exact data"""
    cm = boot(sim)
    k = sim.draw(7)
    if k == 0:
        return faulty_membership(sim, cm)
    if k == 1:
        return faulty_writes(sim, cm)
    if k in (2, 3):
        return faulty_script(sim, cm)
    return faulty_conversion(sim, cm)


def arm(sim, span):
    fs = sim.fs
    k = sim.draw(8)
    countdown = sim.draw(span)
    if k < 4:
        fs.arm(countdown)
    elif k == 4:
        fs.arm(countdown, 'ENOSPC', True)
    elif k == 5:
        fs.arm(countdown, 'EMFILE', True)
    elif k == 6:
        fs.arm(countdown, sim.pick('EIO', 'EACCES'), bool(sim.draw(2)))
    else:
        fs.arm(countdown, only=(sim.pick('read', 'write', 'close', 'open', 'creat', 'listdir', 'stat'),))
    if sim.draw(3) == 1:
        fs.short_reads = 40


def calm(sim):
    sim.fs.disarm()
    sim.fs.short_reads = 0


def model_files(sim, names, big=False):
    texts = {}
    for i, n in enumerate(names):
        kind = nrmlgen.KINDS[sim.draw(len(nrmlgen.KINDS))]
        texts[n] = nrmlgen.Gen(sim, big).make(kind)
        sim.fs.put('%s/%s.xml' % (ROOT, n), texts[n])
    return texts


def contents(cm, arch):
    return dict((n, arch.open(n).read()) for n in arch.extract_filenames())


def faulty_conversion(sim, cm):
    """NRML -> CSV -> NRML with a fault somewhere"""
    kind = sim.pick('mkdir', 'mkzip', 'dir', 'zip')
    spec = Arch(sim, cm, kind, 'arch')
    names = ['m1', 'm2'][:1 + sim.draw(2)]
    texts = model_files(sim, names, big=sim.draw(3) == 1)
    # the fault-free results, in memory
    mem = cm.MemArchive([])
    def reference():
        for n in names:
            cm.CSVManager(mem, n).convert_from_nrml('%s/%s.xml' % (ROOT, n))
        out = cm.MemArchive([])
        cm.CSVManager(mem, 'm1').convert_to_nrml(out)
        return contents(cm, mem), contents(cm, out)
    ok, res = sim.attempt(reference)
    if not ok:
        # a matter of C11
        return
    want_csv, want_xml = res
    phase = sim.draw(3)
    before = sim.fs.tree('/sim')
    old = None
    if phase == 0 and not kind.endswith('zip') and sim.draw(2):
        # the files of a previous conversion, that have to be replaced
        old = sim.shuffled(sorted(want_csv))[:1 + sim.draw(len(want_csv))]
        for n in old:
            sim.fs.put(spec.path + '/' + n, 'header\n' + 'old,row\n' * 40)

    def to_csv():
        arch = spec.create()
        for n in names:
            cm.CSVManager(arch, n).convert_from_nrml('%s/%s.xml' % (ROOT, n))
        arch.close()

    def to_xml(path):
        arch = spec.reopen(False)
        outarch = cm.mkarchive(path, 'w')
        res = cm.CSVManager(arch, '').convert_to_nrml(outarch)
        outarch.close()
        return res

    def scan():
        arch = spec.reopen(False)
        return [(str(e.fname), e.rowno, e.errorlist)
                for e in cm.CSVManager(arch, '').find_invalid()]

    def exact_csv(what):
        env.collect(sim)
        got = sim.must('unreadable', lambda: contents(cm, spec.reopen(False)))
        compare(sim, got, want_csv, what)

    def exact_xml(path, what):
        env.collect(sim)
        got = sim.must('unreadable', lambda: contents(cm, cm.mkarchive(path, 'r')))
        compare(sim, got, want_xml, what)

    if phase == 0:
        arm(sim, 30)
        ok, res = sim.attempt(to_csv)
        calm(sim)
        env.collect(sim)
        sim.log('to csv', ok)
        if ok:
            exact_csv('conversion to CSV that succeeded')
        elif old and sim.draw(2):
            sim.probe('conversion over old files failed')
        # run it again from the start
        if kind.endswith('zip') and sim.fs.norm(spec.path) in sim.fs.nodes:
            os.unlink(spec.path)
        sim.must('not-recovered', to_csv)
        exact_csv('conversion to CSV after the fault')
    else:
        ok, res = sim.attempt(to_csv)
        if not ok:
            return
        env.collect(sim)
        tree = under(sim, spec.path)
        if phase == 1:
            out1 = ROOT + sim.pick('/out', '/out.zip')
            arm(sim, 40)
            ok, res = sim.attempt(to_xml, out1)
            calm(sim)
            env.collect(sim)
            sim.log('to xml', ok)
            if ok:
                exact_xml(out1, 'conversion to NRML that succeeded')
                sim.same(sorted(res), sorted(
                    n if out1.endswith('zip') else out1 + '/' + n for n in want_xml),
                    'wrong-names', 'files created')
            if out1.endswith('.zip') and out1 in sim.fs.nodes:
                os.unlink(out1)
            sim.must('not-recovered', to_xml, out1)
            exact_xml(out1, 'conversion to NRML after the fault')
        else:
            if kind.endswith('dir') and sim.draw(3):
                # some invalid records
                for n in sorted(want_csv):
                    for _ in range(sim.draw(4)):
                        width = want_csv[n].split('\n')[0].count(',')
                        sim.fs.put(spec.path + '/' + n, sim.fs.get(spec.path + '/' + n) +
                                   ','.join(sim.pick('!', '', 'x') for _i in range(width + 1)) + '\n')
                tree = under(sim, spec.path)
            ok, want = sim.attempt(scan)
            if not ok:
                # a matter of C12
                return
            arm(sim, 25)
            ok, res = sim.attempt(scan)
            calm(sim)
            env.collect(sim)
            if ok:
                sim.same(res, want, 'wrong-scan', 'scan with a fault')
            sim.same(sim.must('not-recovered', scan), want, 'wrong-scan', 'scan after the fault')
        sim.check(under(sim, spec.path) == tree, 'changed-by-reading', '')
    for n in names:
        sim.same(sim.fs.get('%s/%s.xml' % (ROOT, n)), texts[n], 'input-changed', n)
    sim.seen('conv', kind, phase, ok, tuple(sorted(k for k in sim.counts if k.startswith('fault'))))


def faulty_script(sim, cm):
    """The command line script with a fault somewhere: it ends with an error, or the result is
    complete"""
    p = 'm1'
    [text] = model_files(sim, [p], big=sim.draw(4) == 1).values()

    span = []

    def run(*args):
        env.collect(sim)
        sim.fs.new_process()
        boot(sim)
        mod = env.script('bin/NRMLconvert.py')
        if span:
            arm(sim, span.pop())
        try:
            mod.main(*args)
        except SystemExit as e:
            if e.code:
                return False
        except (core.Violation, core.HarnessError, core.SimHang, core.SimKilled):
            raise
        except Exception:
            return False
        env.collect(sim)
        return True

    def outcome(where):
        calm(sim)
        sim.fs.new_process()
        m = boot(sim)
        return sim.must('unreadable', lambda: contents(m, m.mkarchive(where, 'r')))
    out = ROOT + sim.pick('/arch', '/arch.zip')
    res = ROOT + sim.pick('/res', '/res.zip')
    if not res.endswith('.zip'):
        sim.fs.mkdirs(res)
    spans = [sim.fs.nsys]
    for args in ((p + '.xml', ROOT + '/want'), (ROOT + '/want', ROOT + '/wantres.zip')):
        if not run(*args):
            # a matter of C11
            return
        spans.append(sim.fs.nsys)
    want, wantres = outcome(ROOT + '/want'), outcome(ROOT + '/wantres.zip')
    span.append(10 + spans[1] - spans[0])
    ok = run(p + '.xml', out)
    calm(sim)
    if ok:
        compare(sim, outcome(out), want, 'the script from NRML to CSV ended well')
    if out.endswith('.zip') and out in sim.fs.nodes:
        os.unlink(out)
    sim.check(run(p + '.xml', out), 'not-recovered', 'the script from NRML to CSV')
    compare(sim, outcome(out), want, 'the script from NRML to CSV after the fault')
    span.append(10 + spans[2] - spans[1])
    ok2 = run(out, res)
    calm(sim)
    if ok2:
        compare(sim, outcome(res), wantres, 'the script from CSV to NRML ended well')
    if res.endswith('.zip') and res in sim.fs.nodes:
        os.unlink(res)
    sim.check(run(out, res), 'not-recovered', 'the script from CSV to NRML')
    compare(sim, outcome(res), wantres, 'the script from CSV to NRML after the fault')
    sim.nontrivial = True
    sim.seen('script', out, res, ok, ok2, tuple(sorted(k for k in sim.counts if k.startswith('fault'))))


def compare(sim, got, want, what):
    if got == want:
        return
    miss = sorted(set(want) - set(got))
    extra = sorted(set(got) - set(want))
    diff = sorted(n for n in want if n in got and got[n] != want[n])
    sim.fail('wrong-data', '%s: missing %s, extra %s, different %s%s' % (
        what, miss, extra, diff, ': %s instead of %s' % (
            core.text(got[diff[0]], 200), core.text(want[diff[0]], 200)) if diff else ''))


def faulty_membership(sim, cm):
    """Membership and optional tables under read faults"""
    kind = sim.pick('mkdir', 'mkzip', 'dir', 'zip')
    spec = Arch(sim, cm, kind, 'arch')
    names = ['m1']
    kindname = nrmlgen.KINDS[sim.draw(len(nrmlgen.KINDS))]
    text = nrmlgen.Gen(sim).make(kindname)
    sim.fs.put(ROOT + '/m1.xml', text)
    def reference():
        arch = spec.create()
        cm.CSVManager(arch, 'm1').convert_from_nrml(ROOT + '/m1.xml')
        env.collect(sim)
        arch = spec.reopen(False)
        return arch, sorted(arch.extract_filenames()), tables(
            cm.CSVManager(arch, 'm1').get_tableset())
    ok, res = sim.attempt(reference)
    if not ok:
        # a matter of C11
        return
    arch, present, want = res
    for i in range(2 + sim.draw(4)):
        if sim.draw(2):
            arch = spec.reopen(False)
        name = sim.choice(present + ['missing.csv'])
        arm(sim, 4)
        ok, res = sim.attempt(arch.__contains__, name)
        calm(sim)
        if ok:
            sim.check(res == (name in present), 'wrong-membership', '%s: %s under faults', name, res)
        arm(sim, 20)
        man = cm.CSVManager(arch, 'm1')
        ok, res = sim.attempt(lambda: tables(man.get_tableset()))
        calm(sim)
        if ok:
            sim.same(res, want, 'wrong-tables', 'tables loaded with faults')
        if sim.draw(2):
            # with the same manager again
            ok, res = sim.attempt(lambda: tables(man.get_tableset()))
            if ok:
                sim.same(res, want, 'wrong-tables', 'tables loaded again by the same manager')
        arch = spec.reopen(False)
        sim.same(sim.must('not-recovered', lambda: tables(
            cm.CSVManager(arch, 'm1').get_tableset())), want, 'wrong-tables', 'tables loaded after faults')
        sim.seen('member', kind, kindname, ok)


def tables(tset):
    return [(t.name, [list(r.row) for r in t]) for t in tset.tables]


def faulty_writes(sim, cm):
    """Plain files of an archive, tables written record by record, temp files"""
    kind = sim.pick('mkdir', 'mkzip', 'dir', 'zip')
    spec = Arch(sim, cm, kind, 'arch')
    data = dict((n, content(sim) * sim.pick(1, 1, 3)) for n in sim.shuffled(NAMES)[:1 + sim.draw(4)])
    nolist = sorted(data)
    leave = sim.draw(2)
    if not kind.endswith('zip') and sim.draw(2):
        for n in sim.shuffled(nolist)[:1 + sim.draw(len(nolist))]:
            sim.fs.put(spec.path + '/' + n, 'previous content ' * sim.pick(1, 100))

    def write():
        arch = spec.create()
        for n in nolist:
            f = arch.open(n, 'w')
            write_chunks(sim, f, data[n])
            if not leave:
                f.close()
        arch.close()
        if sim.draw(2):
            arch.close()
    arm(sim, 16)
    ok, res = sim.attempt(write)
    calm(sim)
    env.collect(sim)
    sim.log('write', ok)
    if ok:
        got = sim.must('unreadable', lambda: contents(cm, spec.reopen(False)))
        compare(sim, got, data, 'writing that succeeded')
    if kind.endswith('zip') and sim.fs.norm(spec.path) in sim.fs.nodes:
        os.unlink(spec.path)
    sim.must('not-recovered', write)
    env.collect(sim)
    compare(sim, sim.must('unreadable', lambda: contents(cm, spec.reopen(False))), data,
            'writing after the fault')

    def read():
        return contents(cm, spec.reopen(False))
    arm(sim, 16)
    ok2, res = sim.attempt(read)
    calm(sim)
    if ok2:
        compare(sim, res, data, 'reading with a fault')
    general = env.boot('general')
    where = sim.pick(None, '/sim/job/new', '/sim/job/new/deep')
    body = content(sim)
    arm(sim, 6)
    ok3, path = sim.attempt(general.writetmp, body, where)
    calm(sim)
    env.collect(sim)
    if ok3:
        sim.same(sim.fs.get(path), body, 'wrong-data', 'temporary file')
    path = sim.must('not-recovered', general.writetmp, body, where)
    sim.same(sim.fs.get(path), body, 'wrong-data', 'temporary file after the fault')
    sim.seen('write', kind, ok, ok2, ok3, tuple(sorted(k for k in sim.counts if k.startswith('fault'))))


# ------------------------------------------------------------------ C11

def damping(sim, cm):
    """Ground motion fields of spectral accelerations with another damping"""
    text = nrmlgen.Gen(sim).make(sim.pick('gmf-scenario', 'gmf-event'))
    value = sim.pick('10', '2.5')
    wanted = text.replace('saDamping="5"', 'saDamping="%s"' % value)
    sim.fs.put(ROOT + '/m.xml', wanted)
    mem = cm.MemArchive([])
    sim.must('conversion-failed', cm.CSVManager(mem).convert_from_nrml, ROOT + '/m.xml')
    [name] = sim.must('conversion-failed', cm.CSVManager(mem).convert_to_nrml)
    got = mem.open(name).read()
    if wanted != text and nrmlgen.canonical(got) == nrmlgen.canonical(text):
        sim.fail('damping-changed', 'saDamping %s became 5' % value)
    same_model(sim, wanted, got, 'damping %s' % value)


def c11(sim):
    cm = boot(sim)
    if sim.draw(40) == 1:
        return damping(sim, cm)
    n = 1 + (sim.draw(3) if sim.draw(2) else 0)
    prefixes = sim.shuffled(['model', 'model-2', 'a b', 'm.x', 'gmf_data', '_m', 'M', '1', 'm__x', 'm_',
                             '__m'])[:n]
    texts = model_files(sim, prefixes, big=sim.draw(3) == 1)
    sim.state['kinds'] = [core.text(texts[p][100:140]) for p in prefixes]
    kind = sim.pick('mkdir', 'mkzip', 'mem', 'dir', 'zip')
    way = sim.draw(3)      # 2: the script, both ways
    if kind == 'mem':
        way = 0
    spec = Arch(sim, cm, kind, 'arch')
    if way == 2:
        return scripted(sim, prefixes, texts)
    restart = way == 1
    arch = sim.must('create-failed', spec.create)
    for p in prefixes:
        if sim.draw(3) == 1 and not restart:
            node = sim.must('conversion-failed', lambda: cm.node_from_nrml('%s/%s.xml' % (ROOT, p))[0])
            man = cm.CSVManager(arch, p)
            for _ in range(sim.pick(1, 1, 2, 3)):
                # also more than once
                sim.must('conversion-failed', man.convert_from_node, node)
        else:
            man = cm.CSVManager(arch, sim.pick(p, ''))
            sim.must('conversion-failed', man.convert_from_nrml, '%s/%s.xml' % (ROOT, p))
    if restart:
        if sim.draw(2):
            sim.fs.kill()
        else:
            env.collect(sim)
        sim.fs.new_process()
        cm = spec.cm = boot(sim)
        sim.probe('restart')
        sim.nontrivial = True
        arch = sim.must('reopen-failed', spec.reopen, False)
    csv1 = contents(cm, arch)
    inplace = sim.draw(3) == 1 and not (kind in ('mkzip', 'zip') and arch.zip.mode == 'r')
    if inplace:
        out = arch
        names = sim.must('conversion-failed', cm.CSVManager(arch, prefixes[0]).convert_to_nrml)
    else:
        out = cm.MemArchive([]) if sim.draw(2) else cm.mkarchive(
            ROOT + sim.pick('/out', '/out.zip'), 'w')
        names = sim.must('conversion-failed', cm.CSVManager(arch, prefixes[0]).convert_to_nrml, out)
        sim.must('close-failed', out.close)
    sim.same(sorted(os.path.basename(x) for x in names), sorted(p + '.xml' for p in prefixes),
             'wrong-names', 'files created')
    if n > 1:
        sim.probe('several models')
        sim.nontrivial = True
    results = {}
    for p in prefixes:
        results[p] = sim.must('read-failed', lambda: out.open(p + '.xml').read())
        same_model(sim, texts[p], results[p], '%s through %s' % (p, kind))
    # once more to CSV: byte-identical
    sim.fs.mkdirs(ROOT + '/again')
    mem = cm.MemArchive([])
    for p in prefixes:
        sim.fs.put('%s/again/%s.xml' % (ROOT, p), results[p])
        sim.must('conversion-failed', cm.CSVManager(mem, p).convert_from_nrml,
                 '%s/again/%s.xml' % (ROOT, p))
    compare(sim, unordered(contents(cm, mem)), unordered(csv1), 'second conversion to CSV')
    # node level
    if n == 1:
        man = cm.CSVManager(arch, prefixes[0])
        for i in range(sim.pick(1, 2, 3)):
            node = sim.must('conversion-failed', man.convert_to_node)
            mem = cm.MemArchive([])
            with mem.open('x.xml', 'w') as f:
                cm.node_to_nrml(node, f)
            same_model(sim, texts[prefixes[0]], mem.open('x.xml').read(), 'convert_to_node')
    elif sim.draw(2):
        # which of the models?
        ok, res = sim.attempt(cm.CSVManager(arch).convert_to_node)
        sim.check(not ok, 'wrong-data', 'convert_to_node gives one model out of %d', n)
    sim.log('models', sorted(csv1), [len(csv1[x]) for x in sorted(csv1)])
    sim.seen(kind, way, n, inplace, tuple(sorted(csv1)))


def unordered(csvs):
    """The costs and the occupancies of an asset have no order"""
    d = {}
    for n in csvs:
        d[n] = csvs[n]
        if n.endswith(('__Cost.csv', '__Occupancy.csv')):
            d[n] = '\n'.join(sorted(csvs[n].split('\n')))
    return d


def scripted(sim, prefixes, texts):
    """bin/NRMLconvert.py in both directions, each in a process of its own"""
    p = prefixes[0]
    out = sim.pick('arch', 'arch.zip', ROOT + '/arch', ROOT + '/arch.zip')

    def process(*args):
        env.collect(sim)
        sim.fs.new_process()
        boot(sim)
        mod = env.script('bin/NRMLconvert.py')
        try:
            mod.main(*args)
        except SystemExit as e:
            if e.code:
                sim.fail('script-failed', 'NRMLconvert %s exits with %s: %s' % (
                    list(args), core.text(e.code), core.text(sim.state['stdout'].getvalue()[-300:])))
        except (core.Violation, core.HarnessError, core.SimHang, core.SimKilled):
            raise
        except Exception as e:
            sim.fail('script-failed', 'NRMLconvert %s raises %s' % (list(args), core.exc_text(e)))
        # the end of the process closes whatever is still open
        env.collect(sim)
        sim.fs.new_process()
    process(sim.pick(p + '.xml', '%s/%s.xml' % (ROOT, p)), out)
    cm = boot(sim)
    csv1 = sim.must('unreadable', lambda: contents(cm, cm.mkarchive(out, 'r')))
    same = sim.draw(3)
    if same == 0:
        process(out)
        target = out
    else:
        target = sim.pick(ROOT + '/res', 'res.zip')
        if not target.endswith('.zip'):
            sim.fs.mkdirs(target)
        process(out, target)
    cm = boot(sim)
    got = sim.must('unreadable', lambda: cm.mkarchive(target, 'r').open(p + '.xml').read())
    same_model(sim, texts[p], got, 'through the script')
    sim.fs.put('%s/second/%s.xml' % (ROOT, p), got)
    process('second/%s.xml' % p, 'arch2')
    cm = boot(sim)
    compare(sim, unordered(contents(cm, cm.mkarchive('arch2', 'r'))), unordered(csv1),
            'second conversion to CSV')
    sim.probe('script')
    sim.nontrivial = True
    sim.log('models', sorted(csv1), [len(csv1[x]) for x in sorted(csv1)])
    sim.seen('script', out, same, tuple(sorted(csv1)))


# ------------------------------------------------------------------ C12

# field -> (valid strings, invalid strings), from the documentation
_num = (('0', '1.5', '2E3', '10'), ('', 'x', '1,5', '1.2.3'))
_pos = (('0', '1.5', '2E3'), ('', 'x', '-1', '-0.5'))
_opt = (('', '0', '1.5'), ('x', '-1'))
_text = (('a', 'any text', 'x"y', '', 'a,b'), ())
_id = (('1', '7', '0'), ('', 'x', '-1', '1.5'))
_int = (('1', '7', '-3'), ('', 'x', '1.5'))
_prob = (('0', '0.5', '1', '1.0'), ('', '1.1', '-0.1', 'p'))
_imt = (('PGA', 'MMI', 'SA(0.1)', 'PGV'), ('', 'XX', 'pga', 'SA', 'SA()'))
_cat = (('population', 'buildings'), ('', 'people', 'Buildings'))
_ne = (('a', 'RC', 'x y'), ('',))
_names = (('a b', 'LS1', 'a_b c'), ('', '1a', 'a -b'))
_bool = (('', '0', '1', 'true', 'false'), ('yes', 'True', '2', 'FALSE'))
_choice3 = (('aggregated', 'per_asset', 'per_area'), ('', 'each'))
FIELDS = {
    'DiscreteVulnerabilitySet': ('Vulnerability', [
        ('vulnerabilitySetID', _text), ('assetCategory', _cat), ('lossCategory', _text), ('IMT', _imt)]),
    'DiscreteVulnerability': ('Vulnerability', [
        ('vulnerabilitySetID', _text), ('vulnerabilityFunctionID', _text),
        ('probabilisticDistribution', _text)]),
    'DiscreteVulnerabilityData': ('Vulnerability', [
        ('vulnerabilitySetID', _text), ('vulnerabilityFunctionID', _text), ('IML', _num),
        ('lossRatio', _num), ('coefficientsVariation', _num)]),
    'FragilityDiscrete': ('FragilityDiscrete', [
        ('format', (('discrete',), ('', 'continuous', 'x'))), ('description', _text),
        ('limitStates', _names)]),
    'FFLimitStateDiscrete': ('FragilityDiscrete', [('limitState', _text)]),
    'FFSetDiscrete': ('FragilityDiscrete', [
        ('ordinal', _int), ('taxonomy', _ne), ('noDamageLimit', _opt), ('IMT', _imt),
        ('imlUnit', _text)]),
    'FFDataDiscrete': ('FragilityDiscrete', [
        ('limitState', _text), ('ffs_ordinal', _int), ('iml', _num), ('poe', _prob)]),
    'FragilityContinuous': ('FragilityContinuous', [
        ('format', (('continuous',), ('', 'discrete'))), ('description', _text),
        ('limitStates', _names)]),
    'FFLimitStateContinuous': ('FragilityContinuous', [('limitState', _text)]),
    'FFSetContinuous': ('FragilityContinuous', [
        ('ordinal', _int), ('taxonomy', _ne), ('noDamageLimit', _opt), ('type', _text),
        ('IMT', _text), ('imlUnit', _text), ('minIML', _num), ('maxIML', _num)]),
    'FFDataContinuous': ('FragilityContinuous', [
        ('limitState', _text), ('ffs_ordinal', _int), ('param', _text), ('value', _num)]),
    'Location': ('Exposure', [
        ('id', _id), ('lon', (('0', '-180', '180.0', '12.5'), ('', '181', '-180.5', 'E'))),
        ('lat', (('0', '-90', '90', '45.1'), ('', '91', '-90.5', 'N')))]),
    'Exposure': ('Exposure', [
        ('id', _ne), ('category', _cat), ('taxonomySource', _text), ('description', _text),
        ('area_type', (('', 'aggregated', 'per_asset'), ('per_area', 'x'))), ('area_unit', _text),
        ('deductible_is_absolute', _bool), ('insurance_limit_is_absolute', _bool)]),
    'CostType': ('Exposure', [
        ('name', _text), ('type', _choice3), ('unit', _text),
        ('retrofittedType', (('', 'aggregated', 'per_area'), ('each',))), ('retrofittedUnit', _text)]),
    'Asset': ('Exposure', [
        ('location_id', _id), ('asset_ref', _text), ('taxonomy', _ne), ('number', _pos), ('area', _opt)]),
    'Occupancy': ('Exposure', [('asset_ref', _text), ('period', _text), ('occupants', _pos)]),
    'Cost': ('Exposure', [
        ('asset_ref', _text), ('type', _text), ('value', _pos), ('retrofitted', _opt),
        ('deductible', _opt), ('insurance_limit', _opt)]),
    'GmfCollection': ('GmfCollection', [('sourceModelTreePath', _text), ('gsimTreePath', _text)]),
    'GmfSet': ('GmfCollection', [
        ('stochasticEventSetId', _int), ('investigationTime', (('0', '50.0', '1E2'), ('x', '1y')))]),
    'Gmf': ('GmfCollection', [('stochasticEventSetId', _int), ('imtStr', _imt), ('ruptureId', _text)]),
    'GmfData': ('GmfCollection', [
        ('stochasticEventSetId', _int), ('imtStr', _text), ('ruptureId', _text), ('lon', _num),
        ('lat', _num), ('gmv', _num)]),
}
BYMODEL = {}
for _rt in ('DiscreteVulnerabilitySet DiscreteVulnerability DiscreteVulnerabilityData '
            'FragilityDiscrete FFLimitStateDiscrete FFSetDiscrete FFDataDiscrete '
            'FragilityContinuous FFLimitStateContinuous FFSetContinuous FFDataContinuous '
            'Location Exposure CostType Asset Occupancy Cost GmfCollection GmfSet Gmf '
            'GmfData').split():
    BYMODEL.setdefault(FIELDS[_rt][0], []).append(_rt)
MODELS = sorted(BYMODEL)


def quote(cell, sim):
    if any(c in cell for c in ',"\n'):
        return '"%s"' % cell.replace('"', '""')
    return cell


def c12(sim):
    cm = boot(sim)
    kind = sim.pick('mem', 'mkdir', 'mkzip', 'dir', 'zip')
    spec = Arch(sim, cm, kind, 'arch')
    prefixes = sim.shuffled(['model', 'other', 'a b', 'mod', 'modela', 'gmf_data', 'other__mod', 'mod_'])[
        :1 + sim.draw(3)]
    files = {}
    expected = {}       # fname -> [(rowno, [fields])]
    order = {}          # prefix -> fnames in order
    badheader = None
    for p in prefixes:
        model = MODELS[sim.draw(len(MODELS))]
        rts = [rt for rt in BYMODEL[model] if sim.draw(4)] or BYMODEL[model][:1]
        order[p] = []
        for rt in rts:
            fields = FIELDS[rt][1]
            fname = '%s__%s.csv' % (p, rt)
            order[p].append(fname)
            eol = sim.pick('\n', '\r\n')
            header = [f for f, _v in fields]
            if sim.draw(12) == 1 and badheader is None:
                k = sim.draw(10)
                header = (header[:-1], header + ['extra'], list(reversed(header)),
                          ['x'] + header[1:], [' ' + header[0]] + header[1:],
                          header[:-1] + [header[-1] + ' '], [h.upper() for h in header],
                          header + [''], header + header[-1:], header[1:] + header[:1])[k]
                if header != [f for f, _v in fields]:
                    badheader = fname
            lines = [','.join(header)]
            expected[fname] = []
            rate = sim.pick(0, 10, 50)
            for row in range(sim.draw(6) if sim.draw(5) else 20 + sim.draw(30)):
                cells, bad = [], []
                for f, (good, wrong) in fields:
                    if wrong and sim.chance(rate):
                        cells.append(wrong[sim.draw(len(wrong))])
                        bad.append(f)
                    else:
                        cells.append(good[sim.draw(len(good))])
                if len(cells) == 1 and cells == ['']:
                    cells = ['x']
                lines.append(','.join(quote(c, sim) for c in cells))
                if bad:
                    expected[fname].append((row, bad))
            text = eol.join(lines)
            if sim.draw(3):
                text += eol
            files[fname] = text
    # names that are no files of a model
    for extra in ('readme.txt', 'model__Unknown.csv', 'model.csv', 'x__y__Unknown.csv', 'model__Asset.txt',
                  'model__Asset__.csv'):
        if sim.draw(6) == 1:
            files[extra] = 'whatever\n1,2\n'
    arch = spec.create()
    for n in sim.shuffled(sorted(files)):
        with arch.open(n, 'w') as f:
            f.write(files[n])
    arch.close()
    if kind != 'mem':
        env.collect(sim)
        sim.fs.new_process()
        cm = spec.cm = boot(sim)
        arch = spec.reopen(False)
    tree = sim.fs.tree('/sim')
    man = cm.CSVManager(arch, sim.pick('', prefixes[0]))
    want = dict((n, v) for n, v in expected.items() if v)
    total = sum(len(v) for v in want.values())
    full = None
    for i in range(2 + sim.draw(3)):
        limit = sim.pick(None, 1, 0, 3, total, total + 5)
        fault = False
        if i and kind != 'mem' and sim.draw(4) == 1:
            fault = True
            sim.fs.arm(sim.draw(30), sim.pick('EIO', None, 'EMFILE'), False,
                       sim.pick(None, ('read',), ('open',)))
        if sim.draw(4) == 1:
            sim.fs.short_reads = 50
        nfaults = sim.fs.faults
        if sim.draw(2):
            man = cm.CSVManager(arch, sim.pick('', prefixes[0]))
        ok, res = sim.attempt(man.find_invalid, limit) if limit is not None or sim.draw(2) \
            else sim.attempt(man.find_invalid)
        calm(sim)
        hit = sim.fs.faults > nfaults
        if hit:
            arch = spec.reopen(False)
            man = cm.CSVManager(arch, '')
            if not ok:
                sim.probe('scan raised for a fault')
                continue
        elif not ok:
            if badheader is not None and isinstance(res, cm.InvalidFile):
                sim.check(badheader in str(res), 'wrong-rejection', 'message %s', core.text(str(res)))
                continue
            sim.fail('scan-failed', 'the scan raised %s' % core.exc_text(res))
        if badheader is not None:
            # a limit may be reached before the bad file
            if limit is None or limit > total:
                sim.fail('bad-header-accepted', 'header of %s' % badheader)
            continue
        got = []
        for e in res:
            sim.check(isinstance(e, cm.record.InvalidRecord), 'wrong-report', 'got %s', core.text(e))
            got.append((e.fname, e.rowno, [f for f, _msg in e.errorlist]))
            lines = str(e).split('\n')
            sim.check(len(lines) >= len(e.errorlist) and all(
                '%s[%s]' % (e.fname, f) in str(e) for f, _m in e.errorlist),
                'wrong-report', 'text %s', core.text(str(e)))
        # every file in row order, the files of a model in order
        by = {}
        for n, row, bad in got:
            by.setdefault(n, []).append((row, bad))
        if limit is None or limit >= total:
            if by != want:
                sim.fail('wrong-report', 'limit %s: got %s, expected %s' % (
                    limit, core.text(sorted(by.items())), core.text(sorted(want.items()))))
            if full is None:
                full = got
                for p in prefixes:
                    seq = [n for n, _r, _b in got if n in order[p]]
                    sim.check(seq == sorted(seq, key=order[p].index), 'wrong-order',
                              'files reported in order %s', core.text(seq))
            sim.check(got == full, 'not-repeatable', 'limit %s: %s, then %s', limit,
                      core.text(full), core.text(got))
        else:
            sim.check(len(got) == limit, 'wrong-report', 'limit %s gave %s', limit, len(got))
            if full is None:
                full2 = [(e.fname, e.rowno, [f for f, _m in e.errorlist])
                         for e in sim.must('scan-failed', cm.CSVManager(arch, '').find_invalid)]
                sim.check(got == full2[:limit], 'wrong-report', 'first %s: %s', limit, core.text(got))
            else:
                sim.check(got == full[:limit], 'wrong-report', 'first %s: %s', limit, core.text(got))
        sim.check(sim.fs.tree('/sim') == tree, 'changed-by-scan', '')
        if fault or total:
            sim.nontrivial = True
        sim.log('scan', limit, hit, len(got), total)
        sim.seen(kind, limit is None, hit, len(prefixes), total, badheader is None)


WORKLOADS = dict(C08=c08, C09=c09, C10=c10, C11=c11, C12=c12)
