# The worker: runs simulations of one property in this interpreter.
#   main.py run PROP SEED START STEP NRUNS DEADLINE_S OUT [hard] [log]
#   main.py replay FILE OUT [hard]
#   main.py shrink FILE OUT BUDGET_S
# It only ever writes to OUT (one JSON document per line).
import sys
import os
import json
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import env
from java.lang import System, Runtime

REGISTRY = {}
MODULES = dict(
    C01='w_parallel', C02='w_parallel', C03='w_parallel', C04='w_parallel',
    C05='w_parallel', C06='w_parallel', C07='w_parallel',
    C08='w_storage', C09='w_storage', C10='w_storage', C11='w_storage', C12='w_storage',
    C13='w_tmp', C14='w_load', C15='w_load', C16='w_tree', C17='w_tree', C18='w_tree',
    C19='w_source', C20='w_source', C21='w_record', C22='w_record', C29='w_gsim',
    C30='w_script', C31='w_edit', C32='w_tables',
    C33='w_tset', C27='w_valid', C25='w_convert', C28='w_risk', C24='w_enum')


def workload(prop):
    mod = __import__(MODULES[prop])
    return mod.WORKLOADS[prop]


def nanos():
    return System.nanoTime() / 1e9


class Out(object):
    def __init__(self, fname):
        self.f = env.real_open(fname, 'a')

    def put(self, **kw):
        self.f.write(json.dumps(kw, sort_keys=True) + '\n')
        self.f.flush()


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(core.REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def one_run(prop, seed=None, tape=None, cov=None, hard=None):
    """Execute one simulated run; returns the finished Sim (and an error text)"""
    func = workload(prop)
    sim = core.Sim(prop, seed, tape, hard, cov)
    error = None
    env.begin(sim)
    out = sys.stdout
    try:
        sys.stdout = sim.state['stdout']
        try:
            func(sim)
        finally:
            sys.stdout = out
        if sim.violation is not None:
            raise sim.violation
    except core.Violation as v:
        if sim.violation is None:
            sim.violation = v
    except core.SimHang:
        pass
    except core.HarnessError as e:
        error = 'HarnessError: %s' % e
    except BaseException as e:
        tb = sys.exc_info()[2]
        txt = ''.join(traceback.format_tb(tb))
        if sim.violation is not None:
            pass
        elif in_repo(tb):
            sim.violation = core.Violation('unexpected-exception', core.exc_text(e))
            sim.log('EXC', txt[-800:])
        else:
            error = '%s\n%s' % (core.exc_text(e), txt)
    finally:
        env.end()
    return sim, error


def result(sim, error, run=None, full=False):
    d = dict(lines=sim.lines, simtime=sim.simtime, counts=sim.counts,
             nontrivial=bool(sim.nontrivial), digest=sim.digest(),
             states=sorted(sim.states), tape_len=len(sim.tape))
    if run is not None:
        d['run'] = run
        d['seed'] = sim.seed
    if error:
        d['error'] = error
        d['tape'] = sim.tape
    if sim.violation is not None and not error:
        d['violation'] = dict(kind=sim.violation.kind, msg=sim.violation.msg)
        d['tape'] = sim.tape
        full = True
    if full:
        d['events'] = sim.events
    return d


def cmd_run(prop, seed, start, step, nruns, deadline, out, flags):
    out = Out(out)
    seed, start, step, nruns = long(seed), int(start), int(step), int(nruns)
    deadline = float(deadline)
    t0 = nanos()
    r = start
    # one unmeasured import of everything, so that compile errors are told apart
    try:
        workload(prop)
    except BaseException as e:
        out.put(fatal='%s\n%s' % (core.exc_text(e), traceback.format_exc()))
        return
    n = 0
    known = []
    for f in flags:
        if f.startswith('known='):
            known = json.load(env.real_open(f[6:]))
    while r < nruns:
        if n and nanos() - t0 > deadline:
            out.put(stopped=r)
            break
        out.put(begin=r)
        hard = None
        if 'hard' in flags:
            def hard(sim, r=r):
                out.put(**result(sim, None, r))
                out.put(halted=r)
                Runtime.getRuntime().halt(0)
        cov = set() if n % 16 == 0 else None
        sim, error = one_run(prop, core.mkseed(seed, prop, r), cov=cov, hard=hard)
        d = result(sim, error, r, full=(n < 2 and start == 0) or 'log' in flags)
        if cov is not None:
            d['cov'] = sorted('%s:%d' % (f[len(core.REPO) + 1:], l) for f, l in cov)
        out.put(**d)
        if error or sim.violation is not None and not any(
                k['kind'] == sim.violation.kind and k['match'] in sim.violation.msg
                for k in known):
            break
        r += step
        n += 1
    out.put(done=True, wall=nanos() - t0)


def cmd_replay(fname, out, flags):
    out = Out(out)
    f = env.real_open(fname)
    doc = json.load(f)
    f.close()
    hard = None
    if 'hard' in flags:
        def hard(sim):
            out.put(**result(sim, None))
            Runtime.getRuntime().halt(0)
    sim, error = one_run(doc['property'], tape=doc['tape'], hard=hard)
    out.put(**result(sim, error, full=True))


def cmd_shrink(fname, out, budget):
    """Minimise the tape of a violation while the same kind of violation persists"""
    f = env.real_open(fname)
    doc = json.load(f)
    f.close()
    prop, kind = doc['property'], doc['violation']['kind']
    t0 = nanos()
    budget = float(budget)
    tried = [0]
    cache = {}

    def bad(tape):
        key = tuple(tape)
        if key in cache:
            return cache[key]
        tried[0] += 1
        sim, error = one_run(prop, tape=tape)
        res = None
        if not error and sim.violation is not None and sim.violation.kind == kind:
            res = list(sim.tape)
            while res and res[-1] == 0:
                res.pop()
        cache[key] = res
        return res

    def time_left():
        return nanos() - t0 < budget

    best = bad(doc['tape'])
    if best is not None:
        changed = True
        while changed and time_left():
            changed = False
            # drop chunks
            size = max(1, len(best) // 2)
            while size >= 1 and time_left():
                i = 0
                while i < len(best) and time_left():
                    cand = best[:i] + best[i + size:]
                    got = bad(cand)
                    if got is not None and (len(got), got) < (len(best), best):
                        best = got
                        changed = True
                    else:
                        i += size
                size //= 2
            # zero chunks, then single values
            for size in (16, 4, 1):
                i = 0
                while i < len(best) and time_left():
                    if any(best[i:i + size]):
                        cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                        got = bad(cand)
                        if got is not None and (len(got), got) < (len(best), best):
                            best = got
                            changed = True
                    i += size
            # lower values
            i = 0
            while i < len(best) and time_left():
                v = best[i]
                for w in (1, v // 2, v - 1):
                    if 0 < w < v:
                        got = bad(best[:i] + [w] + best[i + 1:])
                        if got is not None and (len(got), got) < (len(best), best):
                            best = got
                            changed = True
                            break
                i += 1
    out = Out(out)
    if best is None:
        out.put(shrunk=False)
        return
    sim, error = one_run(prop, tape=best)
    d = result(sim, error, full=True)
    d['shrunk'] = True
    d['tried'] = tried[0]
    d['tape'] = best
    out.put(**d)


def main(argv):
    env.install()
    cmd = argv[0]
    if cmd == 'run':
        cmd_run(*(argv[1:8] + [argv[8:]]))
    elif cmd == 'replay':
        cmd_replay(argv[1], argv[2], argv[3:])
    elif cmd == 'shrink':
        cmd_shrink(*argv[1:4])
    sys.stdout.flush()
    Runtime.getRuntime().halt(0)


if __name__ == '__main__':
    main(sys.argv[1:])
