# Workload over the command line script bin/NRMLconvert.py (+ csvmanager, converter, record,
# records, valid): each execution is a simulated process with a console and an exit status.
import csv
import os
import re
import sys
import StringIO
import core
import env
import nrmlgen
from w_storage import ROOT, FIELDS, arm, calm, boot, contents, compare, same_model

LINE = re.compile(r'^(.*)\[(\w+)\]: (\d+),(\d+): (.*)$')
FOUND = re.compile(r'\d+')


class Console(object):
    """The standard output of one process; it may become unwritable"""
    def __init__(self, sim, limit):
        self.sim, self.limit, self.parts = sim, limit, []

    def write(self, data):
        if self.limit is not None:
            if self.limit == 0:
                self.sim.fault('EPIPE')
                raise IOError(32, 'Broken pipe')
            self.limit -= 1
        self.parts.append(data)

    def flush(self):
        pass

    def lines(self):
        return ''.join(self.parts).split('\n')


class Process(object):
    """One execution of the script, from its start to the end of the process"""
    def __init__(self, sim, argv, faults=None, console=None, kill=None):
        env.collect(sim)
        sim.fs.new_process()
        boot(sim)
        self.killed = False
        self.code, self.message = 0, ''
        self.console = Console(sim, console)
        saved = sys.stdout, sys.argv
        sys.stdout, sys.argv = self.console, ['NRMLconvert.py'] + [str(a) for a in argv]
        if faults is not None:
            arm(sim, faults)
        if kill is not None:
            sim.fs.arm_kill(kill)
        try:
            env.script('bin/NRMLconvert.py', '__main__')
        except SystemExit as e:
            # what the interpreter does with it
            if isinstance(e.code, (int, long)):
                self.code = int(e.code)
            elif e.code is not None:
                self.code, self.message = 1, str(e.code)
        except core.SimKilled:
            self.killed = True
        except (core.Violation, core.HarnessError, core.SimHang, core.Unfinished):
            raise
        except Exception as e:
            self.code, self.message = 1, core.exc_text(e)
        finally:
            sys.stdout, sys.argv = saved
        calm(sim)
        if not sim.fs.frozen:
            sim.fs.kill_at = None
            env.collect(sim)
        else:
            self.killed = True
        sim.fs.new_process()
        if self.killed:
            self.code = None
        self.out = self.console.lines()
        self.argv = ' '.join(map(str, argv))
        sim.log('process', self.argv, self.code, core.text(self.message, 80), len(self.out))

    def text(self):
        return '%s: status %s, %s, output %s' % (
            self.argv, self.code, core.text(self.message, 200), core.text('\n'.join(self.out), 400))


def table(text):
    return list(csv.reader(StringIO.StringIO(text)))


def untable(rows):
    out = StringIO.StringIO()
    csv.writer(out).writerows(rows)
    return out.getvalue()


class Job(object):
    """Valid models, as NRML and as CSV"""
    def __init__(self, sim, many=True):
        self.sim = sim
        cm = boot(sim)
        n = 1 + (sim.draw(2) if many and sim.draw(2) else 0)
        self.names = sim.shuffled(['model', 'model-2', 'a b', 'm.x', '_m', 'M', 'm__x', 'M_'])[:n]
        self.texts, self.csvs, self.kinds = {}, {}, {}
        mem = cm.MemArchive([])
        for p in self.names:
            kind = nrmlgen.KINDS[sim.draw(len(nrmlgen.KINDS))]
            if self.kinds and sim.draw(2):
                kind = self.kinds[self.names[0]]
            self.kinds[p] = kind
            self.texts[p] = nrmlgen.Gen(sim, sim.draw(4) == 1).make(kind)
            self.nrml = '%s/in/%s.xml' % (ROOT, p)
            sim.fs.put(self.nrml, self.texts[p])
            ok, _res = sim.attempt(cm.CSVManager(mem, p).convert_from_nrml, self.nrml)
            if not ok:
                # a matter of C11
                raise core.Unfinished()
        self.csvs = contents(cm, mem)
        # the input archives are relative, absolute, directories, zip files
        self.kind = sim.pick('dir', 'zip')

    def store(self, files, name):
        """An archive with the files; returns its pathname"""
        path = '%s/%s' % (ROOT, name)
        cm = boot(self.sim)
        arch = cm.mkarchive(path, 'w')
        for n in self.sim.shuffled(sorted(files)):
            with arch.open(n, 'w') as f:
                f.write(files[n])
        arch.close()
        return path

    def damage(self, rate):
        """Some cells get invalid values; returns {(file, row): [(field, column)]}"""
        sim = self.sim
        files, bad = dict(self.csvs), {}
        cells = []
        for n in sorted(files):
            rows = table(files[n])
            fields = FIELDS[n.rsplit('__', 1)[1][:-4]][1]
            for r in range(1, len(rows)):
                for c, (field, (_good, wrong)) in enumerate(fields):
                    if wrong:
                        cells.append((n, r, c, field, wrong))
        if not cells:
            return files, bad
        sure = cells[sim.draw(len(cells))]
        # now and then all of the record
        whole = None
        if sim.draw(4) == 1:
            per = {}
            for x in cells:
                per.setdefault(x[:2], []).append(x)
            best = [k for k in sorted(per) if len(per[k]) == len(
                FIELDS[k[0].rsplit('__', 1)[1][:-4]][1])]
            whole = best[sim.draw(len(best))] if best else sure[:2]
        chosen = [x for x in cells if x is sure or x[:2] == whole or sim.chance(rate)]
        where = set(x[:3] for x in chosen)
        if sim.draw(4) == 1:
            # the same places of the files of the other model
            chosen += [x for x in cells if x[:3] not in where and any(
                x[0].rsplit('__', 1)[1] == n.rsplit('__', 1)[1] and x[1:3] == (r, c)
                for n, r, c in where)]
        same = sim.draw(2)
        grids, value = {}, {}
        for n, r, c, field, wrong in chosen:
            rows = grids.setdefault(n, table(files[n]))
            rows[r][c] = v = wrong[sim.draw(len(wrong))]
            if same:
                rows[r][c] = value.setdefault((n.rsplit('__', 1)[1], c), v)
            bad.setdefault((n, r - 1), []).append((field, c))
        for n, rows in grids.items():
            files[n] = untable(rows)
        return files, bad


def reported(sim, proc, bad, limit=None, sure=True):
    """The lines and the final message name exactly these records (the first ones)"""
    got = {}
    for line in proc.out:
        m = LINE.match(line)
        if m is None:
            continue
        n, field, row, col, _msg = m.groups()
        cell = (field, int(col))
        have = got.setdefault((n, int(row)), [])
        if cell not in bad.get((n, int(row)), ()) or cell in have:
            sim.fail('wrong-report', '%s; %s[%s] row %s column %s' % (
                proc.text(), n, field, row, col))
        have.append(cell)
    if not sure:
        # something failed meanwhile
        if 'invalid' in proc.message and FOUND.search(proc.message):
            sim.check(int(FOUND.search(proc.message).group()) == len(bad), 'wrong-report',
                      '%s; %s records are invalid', proc.text(), len(bad))
        return
    want = len(bad) if limit is None else min(limit, len(bad))
    for key, cells in got.items():
        sim.check(sorted(cells) == sorted(bad[key]), 'wrong-report',
                  '%s; the bad fields of %s are %s', proc.text(), key, bad[key])
    sim.check(len(got) == want, 'wrong-report', '%s; %s records instead of %s',
              proc.text(), len(got), want)
    sim.check(proc.code not in (0, None), 'false-success', '%s', proc.text())
    m = FOUND.search(proc.message)
    sim.check(m is not None and int(m.group()) == want, 'wrong-report',
              '%s; %s records are invalid', proc.text(), want)


def success(sim, proc, names):
    sim.check(proc.code == 0, 'script-failed', '%s', proc.text())
    for n in names:
        sim.check(any(n in line for line in proc.out), 'not-announced', '%s; %s was created',
                  proc.text(), n)
    sim.check(not any(LINE.match(line) for line in proc.out), 'wrong-report', '%s', proc.text())


def read_archive(sim, path):
    sim.fs.new_process()
    cm = boot(sim)
    return sim.must('unreadable', lambda: contents(cm, cm.mkarchive(path, 'r')))


def outside(sim, *paths):
    return dict((q, v) for q, v in sim.fs.tree('/sim').items()
                if not any(q == p or q.startswith(p + '/') for p in paths))


def put_limit(sim, args, total):
    """The arguments, possibly with a limit"""
    limit = sim.pick(None, 1, 2, total, total + 3)
    if limit == 0:
        limit = None
    return (args if limit is None else args + [limit]), limit


# ------------------------------------------------------------------ CSV to NRML

def csv_to_nrml(sim):
    job = Job(sim)
    files, bad = job.csvs, {}
    if sim.draw(2):
        files, bad = job.damage(sim.pick(0, 5, 40))
    stray = {}
    if sim.draw(3) == 1:
        stray['notes.txt'] = 'nothing\n'
        stray['model__Unknown.csv'] = 'a,b\n1,2\n'
    files = dict(files, **stray)
    inp = job.store(files, 'arch' + ('.zip' if job.kind == 'zip' else ''))
    out, old = inp, {}
    if sim.draw(3):
        out = ROOT + sim.pick('/res', '/res.zip')
        if sim.draw(2):
            old['other.xml'] = 'old'
        if old or not out.endswith('.zip'):
            if out.endswith('.zip') or sim.draw(2):
                job.store(old, os.path.basename(out))
            else:
                old = {}
                sim.fs.mkdirs(out)
    before = sim.fs.tree('/sim')
    around = outside(sim, out)
    rel = sim.draw(2)
    args = [os.path.basename(inp) if rel else inp]
    if out != inp:
        args.append(os.path.basename(out) if rel else out)
        args, limit = put_limit(sim, args, len(bad))
    else:
        limit = None
        if sim.draw(3) == 1:
            args, limit = put_limit(sim, args + [''], len(bad))
    for _ in range(1 + sim.draw(2)):
        proc = Process(sim, args)
        if bad:
            reported(sim, proc, bad, limit)
            sim.check(sim.fs.tree('/sim') == before, 'changed-anyway', '%s', proc.text())
            sim.nontrivial = True
            sim.probe('invalid records')
            continue
        success(sim, proc, [p + '.xml' for p in job.names])
        sim.check(outside(sim, out) == around, 'changed-around', '%s', proc.text())
        got = read_archive(sim, out)
        for p in job.names:
            sim.check(p + '.xml' in got, 'false-success', '%s; no %s.xml', proc.text(), p)
            same_model(sim, job.texts[p], got.pop(p + '.xml'), proc.argv)
        compare(sim, got, old if out != inp else files, 'the other files')
        if out.endswith('.zip'):
            # once more would make a second member of the same name
            break
    sim.seen('xml', job.kind, out == inp, bool(old), bool(bad), limit is None, len(job.names))


# ------------------------------------------------------------------ NRML to CSV

NUMBERS = re.compile(r'( (?:lon|lat|number|occupants|gmv|minIML)=")([^"]*)"')


def nrml_to_csv(sim):
    job = Job(sim)
    p = job.names[0]
    text, spoiled = job.texts[p], False
    hits = list(NUMBERS.finditer(text))
    if hits and sim.draw(2):
        # numbers that are no numbers
        spoiled = True
        sure = hits[sim.draw(len(hits))]
        chosen = [h for h in hits if h is sure or sim.chance(10)]
        for h in reversed(chosen):
            # all different: no record becomes a duplicate of another
            text = text[:h.start(2)] + 'BAD%d' % h.start(2) + text[h.end(2):]
        sim.fs.put('%s/in/%s.xml' % (ROOT, p), text)
    out = ROOT + sim.pick('/res', '/res.zip')
    old = {}
    if sim.draw(2):
        old['notes.txt'] = 'old'
        if len(job.names) > 1:
            # the files of another model, some of them invalid
            other = [n for n in job.csvs if n.rsplit('__', 1)[0] == job.names[1]]
            files, _bad = job.damage(10) if sim.draw(2) else (job.csvs, {})
            old.update((n, files[n]) for n in other)
        job.store(old, os.path.basename(out))
    around = outside(sim, out)
    rel = sim.draw(2)
    args = [('in/%s.xml' if rel else ROOT + '/in/%s.xml') % p,
            os.path.basename(out) if rel else out]
    args, limit = put_limit(sim, args, 2)
    if out.endswith('.zip'):
        old = {}        # it is made anew
    mine = [n for n in job.csvs if n.rsplit('__', 1)[0] == p]
    for _ in range(1 + sim.draw(2)):
        proc = Process(sim, args)
        sim.check(outside(sim, out) == around, 'changed-around', '%s', proc.text())
        got = read_archive(sim, out)
        bad = badcells(got)
        if spoiled:
            sim.check(any(n in mine for n, _r in bad), 'wrong-data',
                      '%s; the invalid numbers are not in %s', proc.text(), sorted(got))
        if bad:
            reported(sim, proc, bad, limit)
            sim.check(set(n for n in got if n not in old) == set(mine) - set(old), 'wrong-names',
                      '%s', sorted(got))
            sim.nontrivial = True
            sim.probe('invalid numbers')
        else:
            success(sim, proc, mine)
            want = dict(old)
            want.update((n, job.csvs[n]) for n in mine)
            compare(sim, got, want, proc.argv)
    sim.seen('csv', out, spoiled, len(bad), limit is None, bool(old))


def badcells(files):
    """The cells that are invalid whatever the record is; they were made so"""
    bad = {}
    for n in files:
        if not n.endswith('.csv') or '__' not in n:
            continue
        fields = FIELDS[n.rsplit('__', 1)[1][:-4]][1]
        for r, row in enumerate(table(files[n])[1:]):
            for c, (field, (_good, wrong)) in enumerate(fields):
                if wrong and (row[c].startswith('BAD') or row[c] in wrong):
                    bad.setdefault((n, r), []).append((field, c))
    return bad


# ------------------------------------------------------------------ mistakes

def mistakes(sim):
    """What cannot be converted never ends well; once repaired, it does"""
    job = Job(sim, many=False)
    [p] = job.names
    out = ROOT + '/res.zip'
    k = sim.draw(8)
    if k == 0:
        # nothing of that name
        inp = ROOT + sim.pick('/nosuch', '/nosuch.zip', '/in/nosuch.xml')
        before = sim.fs.tree('/sim')
        proc = Process(sim, [inp] + ([out] if sim.draw(2) else []))
        sim.check(proc.code != 0, 'false-success', '%s', proc.text())
        if not inp.endswith('.xml'):
            sim.check(sim.fs.tree('/sim') == before, 'changed-anyway', '%s', proc.text())
    elif k == 1:
        before = sim.fs.tree('/sim')
        proc = Process(sim, [job.nrml])
        sim.check(proc.code != 0, 'false-success', '%s', proc.text())
        sim.check(sim.fs.tree('/sim') == before, 'changed-anyway', '%s', proc.text())
    elif k == 2:
        text = job.texts[p]
        cut = sim.draw(len(text.rstrip()) - 1)
        sim.fs.put(job.nrml, sim.pick(
            text[:cut], text.replace('</nrml>', '</nrml><x/>'), 'x' + text,
            text.replace('Model', 'Muddle').replace('gmfSet', 'set').replace('gmfColl', 'coll')))
        proc = Process(sim, [job.nrml, out])
        sim.check(proc.code != 0, 'false-success', '%s', proc.text())
        sim.fs.put(job.nrml, text)
        success(sim, Process(sim, [job.nrml, out]), [])
        compare(sim, read_archive(sim, out), job.csvs, 'after the repair')
    else:
        # files that do not belong together
        files = dict(job.csvs)
        names = [n for n in sorted(files) if k < 4 or len(table(files[n])) > 1]
        if k > 5:
            names = [n for n in names if dangling(n, files)]
        if not names:
            return
        n = sim.choice(names)
        rows = table(files[n])
        if k == 3:
            what = 'header'
            rows[0] = rows[0][:-1] + [rows[0][-1] + sim.pick('x', ' ', '_')]
        elif k == 4:
            what = 'duplicate'
            rows.append(list(rows[1 + sim.draw(len(rows) - 1)]))
        elif k == 5:
            what = 'too long'
            rows[-1] = rows[-1] + ['1']
        else:
            what = 'dangling'
            rows[1:] = []
        files[n] = untable(rows)
        inp = job.store(files, 'arch' + ('.zip' if job.kind == 'zip' else ''))
        tree = dict((q, v) for q, v in sim.fs.tree('/sim').items())
        proc = Process(sim, [inp, out])
        sim.check(proc.code != 0, 'false-success', '%s: %s of %s', proc.text(), what, n)
        now = outside(sim, out)
        sim.check(all(now.get(q) == v for q, v in tree.items()), 'input-changed', '%s', proc.text())
        if sim.fs.get(out) is not None:
            os.unlink(out)
        inp = job.store(job.csvs, 'arch2' + ('.zip' if job.kind == 'zip' else ''))
        proc = Process(sim, [inp, out])
        success(sim, proc, [p + '.xml'])
        same_model(sim, job.texts[p], read_archive(sim, out)[p + '.xml'], proc.argv)
        sim.probe(what)
    sim.nontrivial = True
    sim.seen('mistake', k, job.kind)


# referenced record type -> the ones with a key into it
REFS = dict(DiscreteVulnerabilitySet=['DiscreteVulnerability'],
            DiscreteVulnerability=['DiscreteVulnerabilityData'],
            FFSetDiscrete=['FFDataDiscrete'], FFSetContinuous=['FFDataContinuous'],
            Location=['Asset'])


def dangling(name, files):
    p, rt = name[:-4].rsplit('__', 1)
    return any(len(table(files.get('%s__%s.csv' % (p, other), ''))) > 1
               for other in REFS.get(rt, ()))


# ------------------------------------------------------------------ faults, kills

def trouble(sim):
    """Faults, a broken console or a kill while the script runs"""
    job = Job(sim, many=False)
    [p] = job.names
    from_xml = sim.draw(2)
    bad = {}
    out = ROOT + sim.pick('/res', '/res.zip')
    if from_xml:
        inp = job.nrml
    else:
        files = job.csvs
        if sim.draw(4) == 1:
            files, bad = job.damage(5)
        inp = job.store(files, 'arch' + ('.zip' if job.kind == 'zip' else ''))
        if not out.endswith('.zip'):
            sim.fs.mkdirs(out)
    keep = outside(sim, out)
    kill = console = faults = None
    k = sim.draw(4)
    # how long it takes
    probe = sim.fs.nsys
    again = ROOT + '/probe.zip'
    Process(sim, [inp, again])
    span = 5 + sim.fs.nsys - probe
    if sim.fs.norm(again) in sim.fs.nodes:
        os.unlink(again)
    if k == 0:
        kill = sim.draw(span)
    elif k == 1:
        console = sim.draw(6)
    else:
        faults = span
        if sim.draw(4) == 1:
            console = sim.draw(4)
    nfaults = sim.fs.faults
    proc = Process(sim, [inp, out], faults, console, kill)
    now = outside(sim, out)
    for q in sorted(keep):
        sim.check(now.get(q) == keep[q], 'input-changed', '%s: %s', proc.text(), q)
    if proc.code == 0:
        sim.check(not bad, 'false-success', '%s', proc.text())
        complete(sim, job, out, from_xml, proc)
    elif bad:
        reported(sim, proc, bad, sure=False)
    if proc.killed or proc.code:
        sim.nontrivial = True
        sim.probe('killed' if proc.killed else 'failed')
    # and again, without trouble
    if out.endswith('.zip') and sim.fs.norm(out) in sim.fs.nodes:
        os.unlink(out)
    proc = Process(sim, [inp, out])
    if bad:
        reported(sim, proc, bad)
    else:
        success(sim, proc, [])
        complete(sim, job, out, from_xml, proc)
    sim.seen('trouble', k, from_xml, out, sim.fs.faults > nfaults, proc.killed)


def complete(sim, job, out, from_xml, proc):
    got = read_archive(sim, out)
    if from_xml:
        compare(sim, got, job.csvs, proc.argv)
    else:
        [p] = job.names
        sim.check(sorted(got) == [p + '.xml'], 'wrong-names', '%s: %s', proc.argv, sorted(got))
        same_model(sim, job.texts[p], got[p + '.xml'], proc.argv)


def c30(sim):
    k = sim.draw(8)
    try:
        if k == 0:
            mistakes(sim)
        elif k in (1, 2):
            nrml_to_csv(sim)
        elif k in (3, 4, 5):
            csv_to_nrml(sim)
        else:
            trouble(sim)
    except core.Unfinished:
        pass


WORKLOADS = dict(C30=c30)
