# Workload over concurrent creation of temporary files (general.writetmp) and of directory
# archives (csvmanager).
import os
import core
import env

ROOT = '/sim/job'
CONTENT = [None, '', 'x', 'text\n', 'two\nlines\n', 'z' * 700, 'q' * 5000]


def c13(sim):
    sim.line_budget = 2000000
    nproc = 1 + (sim.draw(3) if sim.draw(3) == 1 else 0)
    procs = []
    for i in range(nproc):
        procs.append(env.boot('general', 'csvmanager'))
    sim.fs.tmp_space = sim.pick(100000, 24, 24, 50)
    # files of others, that have to survive
    others = {}
    sim.fs.mkdirs(ROOT + '/exists')
    for i in range(sim.draw(4)):
        name = '%s/%s' % (sim.pick('/sim/tmp', ROOT + '/exists'),
                          '%s%05d%s' % (sim.pick('tmp', 'p-'), sim.draw(6), sim.pick('tmp', '.xml')))
        others[name] = 'precious %d' % i
        sim.fs.put(name, others[name])
    dirs = [None, ROOT + '/exists', ROOT + '/new', ROOT + '/a/b/c', 'relative', 'relative/deeper']
    ncallers = 2 + sim.draw(4)
    same = sim.draw(3)
    fixed = dirs[sim.draw(len(dirs))]
    archdir = sim.pick(ROOT + '/arch', 'arch', ROOT + '/exists')
    results = []         # (path, content, expected dir, prefix, suffix) of files still there
    th = core.Threads(sim, mean=sim.pick(12, 4, 30))

    def writer(me, plan, general):
        mine = []
        for content, where, prefix, suffix, remove in plan:
            kw = {}
            if where is not None:
                kw['dir'] = where
            if prefix is not None:
                kw['prefix'] = prefix
            if suffix is not None:
                kw['suffix'] = suffix
            if content is None and not sim.state.get('explicit'):
                path = general.writetmp(**kw)
            else:
                path = general.writetmp(content, **kw)
            look(path, content, 'right after its creation by %s' % me)
            full = sim.fs.norm(path)
            d = os.path.dirname(full)
            want = sim.fs.norm(where) if where is not None else '/sim/tmp'
            sim.check(d == want, 'wrong-place', '%s instead of a file in %s', path, want)
            base = os.path.basename(full)
            sim.check(base.startswith(prefix if prefix is not None else 'tmp') and
                      base.endswith(suffix if suffix is not None else 'tmp'), 'wrong-name',
                      '%s for prefix %s and suffix %s', base, prefix, suffix)
            for other, content_ in results:
                sim.check(other != full, 'collision', '%s given out twice', full)
            sim.check(full not in others, 'collision', '%s existed before', full)
            if remove:
                os.unlink(path)
                continue
            results.append((full, content))
            mine.append((full, content))
        for full, content in mine:
            look(full, content, 'at the end of %s' % me)

    def look(path, content, when):
        got = sim.fs.get(path) if sim.fs.norm(path) in sim.fs.nodes else None
        sim.check(got == (content or ''), 'wrong-content', '%s %s: %s instead of %s', path, when,
                  core.text(got, 80), core.text(content or '', 80))

    def archiver(me, i, cm):
        how = sim.draw(3)
        mode = sim.pick('w', 'w+', 'r+')
        if how == 0:
            arch = cm.DirArchive(archdir, mode)
        else:
            arch = cm.mkarchive(archdir, mode)
        with arch.open('file%d' % i, 'w') as f:
            f.write('by %s' % me)
        arch.close()
        with arch.open('file%d' % i) as f:
            sim.check(f.read() == 'by ' + me, 'wrong-content', 'file%d of the archive', i)
        sim.check('file%d' % i in arch, 'wrong-content', 'file%d is not in the archive', i)

    made = []
    sim.state['explicit'] = sim.draw(2)
    for i in range(ncallers):
        pid = sim.draw(nproc)
        general, cm = procs[pid]
        if sim.draw(4) == 1:
            th.spawn('arch%d' % i, archiver, 'arch%d' % i, i, cm).pid = 100 + pid
            made.append(i)
            continue
        plan = []
        for _ in range(1 + sim.draw(3)):
            where = fixed if same else dirs[sim.draw(len(dirs))]
            plan.append((CONTENT[sim.draw(len(CONTENT))], where, sim.pick(None, 'p-', ''),
                         sim.pick(None, '.xml', ''), sim.draw(5) == 1))
        sim.log('plan', i, plan)
        th.spawn('tmp%d' % i, writer, 'tmp%d' % i, plan, general).pid = 100 + pid
    th.run()
    for t in th.threads:
        if not t.ok:
            sim.fail('creation-failed', '%s raised %s' % (t.name, core.exc_text(t.value)))
    for full, content in results:
        look(full, content, 'in the end')
    sim.check(len(set(p for p, _c in results)) == len(results), 'collision', 'paths %s',
              core.text(sorted(results)))
    for i in made:
        sim.same(sim.fs.get('%s/file%d' % (sim.fs.norm(archdir), i)), 'by arch%d' % i,
                 'wrong-content', 'file%d of the archive' % i)
    for name in others:
        sim.same(sim.fs.get(name), others[name], 'wrong-content', 'file of others %s' % name)
    sim.same(sim.fs.open_handles(), 0, 'descriptor-leak', 'descriptors left open')
    if sim.draw(3) == 1:
        # faults: no raw descriptor is left, and the next call works
        general = procs[0][0]
        sim.fs.arm(sim.draw(6), sim.pick(None, 'ENOSPC', 'EMFILE'), False)
        where = sim.pick(None, ROOT + '/fresh')
        body = CONTENT[sim.draw(len(CONTENT))]
        ok, path = sim.attempt(general.writetmp, body, where)
        sim.fs.disarm()
        if ok:
            look(path, body, 'after a fault')
        env.collect(sim)
        sim.same(sim.fs.open_handles(), 0, 'descriptor-leak', 'descriptors left open by a fault')
        path = sim.must('creation-failed', general.writetmp, body, where)
        look(path, body, 'after a fault')
    sim.seen(ncallers, nproc, same, th.switches, len(made), tuple(sorted(p for p, _c in results)))


WORKLOADS = dict(C13=c13)
