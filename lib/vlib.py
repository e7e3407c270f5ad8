"""Shared machinery of the checks: scratch folders, running TLC, evidence, verdicts.

Every check is a python program `checks/<id>.py` with a function run(ctx).  It drives the real
code from /repo's working tree, writes what it observed as JSON lines, and lets TLC decide, with a
TLA+ module from spec/, whether the observation is one the specification allows.
Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 the machinery itself failed.
"""
import contextlib
import io
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar'


class MachineryError(Exception):
    pass


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    return x


LIM = 2**31 - 1


def fix(v, scale):
    """float -> scaled integer, saturated so that TLC (32 bit) can read it; nan -> saturated"""
    v = float(v)
    if v != v or v in (float('inf'), float('-inf')):
        return -LIM if v < 0 else LIM
    r = int(round(v*scale))
    return max(-LIM, min(LIM, r))


def fixl(vs, scale):
    return [fix(v, scale) for v in vs]


class Ctx(object):
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='omgverif_%s_' % prop)
        self.violations = []      # dicts: clause, detail, case
        self.cov = {}             # coverage of the evidence file
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.assumptions = []
        self.level = 'model_checking'
        self.notes = {}

    @property
    def quick(self):
        return self.tier == 'quick'

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time()-self.t0), *a)
        sys.stdout.flush()

    def violation(self, clause, detail, case=None):
        self.violations.append({'clause': clause, 'detail': detail, 'case': jsonable(case)})
        if len(self.violations) <= 20:
            self.log('clause broken:', clause, '|', str(detail)[:400])

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(jsonable(s))

    # ------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, extra=(), name=None, mem='3g',
            expect_ok=False):
        """Run TLC on spec/<module>.tla with the configuration text cfg.
        Returns dict(ok, out, states, distinct, printed=[...])"""
        name = name or module
        d = tempfile.mkdtemp(prefix='tlc_%s_' % name, dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfgp = os.path.join(d, name + '_run.cfg')
        with open(cfgp, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ['tlc', '-metadir', os.path.join(d, 'meta'), '-workers', str(workers), '-noGenerateSpecTE',
               '-config', cfgp] + list(extra) + [os.path.join(d, module + '.tla')]
        e['JAVA_TOOL_OPTIONS'] = (e.get('JAVA_TOOL_OPTIONS', '') + ' -Xmx%s -Xss64m' % mem).strip()
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, universal_newlines=True)
        except subprocess.TimeoutExpired as exc:
            raise MachineryError('TLC timed out on %s: %s' % (name, (exc.stdout or '')[-2000:]))
        out = p.stdout
        res = {'out': out, 'rc': p.returncode, 'wall': time.time()-t, 'dir': d}
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            res['states'] = int(m.group(1))
            res['distinct'] = int(m.group(2))
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
        else:
            res['states'] = res['distinct'] = 0
        res['ok'] = 'Model checking completed. No error has been found.' in out or \
            (p.returncode == 0 and 'Error:' not in out)
        res['invariant'] = re.findall(r'Invariant (\w+) is violated', out)
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        if expect_ok and not res['ok']:
            i = max(0, out.find('Error:'))
            raise MachineryError('TLC failed on %s (rc %s):\n%s\n...\n%s' % (name, p.returncode, out[i:i+1500], out[-2500:]))
        return res

    def design(self, module, cfg, **kw):
        """check the specification itself (no implementation involved): must always pass"""
        kw.setdefault('workers', 4)
        r = self.tlc(module, cfg, expect_ok=True, **kw)
        self.log('design %s: %d states, %d distinct, %.1fs' % (
            kw.get('name', module), r['states'], r['distinct'], r['wall']))
        self.notes.setdefault('design_models', []).append(
            {'module': module, 'name': kw.get('name', module), 'states': r['distinct'],
             'transitions': r['states']})
        return r

    def judge(self, module, records, cfg=None, consts='', name=None, timeout=600, keymap=None, mem='3g',
              shards=1):
        """Let TLC validate recorded behaviours.  Every trace module reads the records from the file
        in IOEnv.TRACE, walks over them one step at a time and, in every step, computes the set of
        broken clauses; verdicts are total.  It writes them to IOEnv.VERDICT as
        [n |-> number of records judged, bad |-> <<[i |-> index, clause |-> name, info |-> ...]>>]."""
        name = name or module
        records = list(records)
        if shards > 1 and len(records) >= 2*shards:
            from concurrent.futures import ThreadPoolExecutor
            parts = [records[k::shards] for k in range(shards)]
            with ThreadPoolExecutor(shards) as ex:
                futs = [ex.submit(self._judge1, module, p, cfg, consts, '%s%d' % (name, k), timeout, mem)
                        for k, p in enumerate(parts)]
                outs = [f.result() for f in futs]
            bad = []
            for k, o in enumerate(outs):
                for b in o:
                    b = dict(b)
                    b['i'] = k + (b['i']-1)*shards + 1
                    bad.append(b)
        else:
            bad = self._judge1(module, records, cfg, consts, name, timeout, mem)
        self.traces += len(records)
        for b in bad:
            rec = records[b['i']-1]
            self.violation(b['clause'], b.get('info', ''), rec.get('case', rec))
        return bad

    def _judge1(self, module, records, cfg, consts, name, timeout, mem):
        d = tempfile.mkdtemp(prefix='trace_%s_' % name, dir=self.scratch)
        tr = os.path.join(d, 'trace.ndjson')
        ver = os.path.join(d, 'verdict.json')
        with open(tr, 'w') as f:
            for r in records:
                f.write(json.dumps(jsonable({k: v for k, v in r.items() if k != 'case'})) + '\n')
        cfg = cfg or ('SPECIFICATION TraceSpec\nPOSTCONDITION TraceVerdict\nCHECK_DEADLOCK FALSE\n' + consts)
        r = self.tlc(module, cfg, env={'TRACE': tr, 'VERDICT': ver}, timeout=timeout, name=name, mem=mem)
        if not os.path.exists(ver):
            k = max([0] + [r['out'].find(w) for w in ('Error: Evaluating', 'Error: Attempted', 'Overflow', 'overflow', 'Semantic errors', 'Exception')])
            raise MachineryError('no verdict from %s (rc %s):\n%s\n...\n%s' % (name, r['rc'], r['out'][k:k+1500], r['out'][-1500:]))
        with open(ver) as f:
            v = json.loads(f.read().strip())
        if isinstance(v, list):
            v = v[0]
        if v['n'] != len(records):
            raise MachineryError('%s judged %s of %d records:\n%s' % (
                name, v['n'], len(records), r['out'][-4000:]))
        self.log('judged %s: %d records, %d broken clauses, %.1fs' % (
            name, len(records), len(v['bad']), r['wall']))
        return v['bad']

    # ------------------------------------------------------------------
    def finish(self):
        known = load_known(self.prop)
        hits, fresh = {}, []
        for v in self.violations:
            k = match_known(known, v)
            if k is not None:
                hits.setdefault(k['id'], (k, v))
            else:
                fresh.append(v)
        for kid, (k, v) in hits.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        replay = None
        if fresh:
            os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
            replay = os.path.join(EVID, 'replay', '%s_%s_%d.json' % (self.prop, self.tier, self.seed))
            with open(replay, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                           'violations': fresh[:200], 'count': len(fresh)}, f, indent=1, default=str)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'evaluations': self.evals,
               'samples': self.samples}
        cov.update(self.notes)
        cov.update(self.cov)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': jsonable(cov), 'assumptions': self.assumptions,
              'wall_s': round(time.time()-self.t0, 2), 'violations': len(fresh)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if fresh:
            clauses = sorted(set(v['clause'] for v in fresh))
            if os.environ.get('VERIF_HIST'):
                import collections
                for kk, nn in sorted(collections.Counter((v['clause'], str((v['case'] or {}).get('key'))) for v in fresh).items()):
                    print('   ', nn, kk)
            print('broken clauses: %s (%d occurrences)' % (', '.join(clauses), len(fresh)))
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        self.log('held: %d states, %d transitions, %d traces judged, %d evaluations' % (
            self.states, self.transitions, self.traces, self.evals))
        return 0


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#') and not line.startswith('fixed:'):
                    k = json.loads(line)
                    if k.get('property') == prop:
                        out.append(k)
    return out


def match_known(known, v):
    for k in known:
        if k.get('clause') not in (None, v['clause']):
            continue
        case = v.get('case')
        key = case.get('key') if isinstance(case, dict) else None
        if key is not None and key == k.get('key'):
            return k
    return None


@contextlib.contextmanager
def quiet():
    """the tool prints a lot; keep the checks' output readable"""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


class Xvfb(object):
    """a private display, for the parts that open a Tk root"""
    def __init__(self):
        self.p = None

    def __enter__(self):
        r, w = os.pipe()
        os.set_inheritable(w, True)
        self.p = subprocess.Popen(['Xvfb', '-displayfd', str(w), '-screen', '0', '1024x768x24',
                                   '-nolisten', 'tcp'], pass_fds=(w,), stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL)
        os.close(w)
        num = b''
        import select
        end = time.time() + 30
        while not num.endswith(b'\n') and time.time() < end:
            if select.select([r], [], [], 1)[0]:
                c = os.read(r, 16)
                if not c:
                    break
                num += c
        os.close(r)
        if not num.strip():
            raise MachineryError('Xvfb gave no display')
        os.environ['DISPLAY'] = ':' + num.decode().strip()
        return self

    def __exit__(self, *a):
        self.p.terminate()
        try:
            self.p.wait(10)
        except Exception:
            self.p.kill()
        return False


def import_repo():
    """make `import omgtools` take the working tree of the repository under test"""
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ['MPLBACKEND'] = 'Agg'
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import matplotlib
    matplotlib.use('Agg')
    real_use = matplotlib.use
    matplotlib.use = lambda *a, **k: None      # plotlayer asks for TkAgg
    try:
        with quiet():
            import omgtools
    finally:
        matplotlib.use = real_use
    got = os.path.dirname(os.path.abspath(omgtools.__file__))
    if got != os.path.join(REPO, 'omgtools'):
        raise MachineryError('omgtools came from %s' % got)
    return omgtools


def parallel(fn, jobs, procs=8, timeout=600):
    """map fn over jobs in forked worker processes; returns list of ('ok', result) or
    ('exc', text) or ('timeout', text), in order.  fn must be a module level function."""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    results = [None]*len(jobs)
    todo = list(range(len(jobs)))
    running = {}
    deadline = {}
    import tempfile as tf
    d = tf.mkdtemp(prefix='omgverif_par_')

    def child(i):
        import pickle
        try:
            out = ('ok', fn(jobs[i]))
        except MachineryError:
            out = ('mach', traceback.format_exc())
        except BaseException:
            out = ('exc', traceback.format_exc())
        with open(os.path.join(d, '%d.p' % i), 'wb') as f:
            pickle.dump(out, f)
        sys.stdout.flush()
        os._exit(0)

    import pickle
    try:
        while todo or running:
            while todo and len(running) < procs:
                i = todo.pop(0)
                sys.stdout.flush()
                p = ctx.Process(target=child, args=(i,))
                p.start()
                running[i] = p
                deadline[i] = time.time() + timeout
            time.sleep(0.01)
            for i, p in list(running.items()):
                if not p.is_alive():
                    p.join()
                    fp = os.path.join(d, '%d.p' % i)
                    if os.path.exists(fp):
                        with open(fp, 'rb') as f:
                            results[i] = pickle.load(f)
                        os.unlink(fp)
                    else:
                        results[i] = ('exc', 'worker died, exit code %s' % p.exitcode)
                    del running[i]
                elif time.time() > deadline[i]:
                    p.kill()
                    p.join()
                    results[i] = ('timeout', 'no result within %d s' % timeout)
                    del running[i]
    finally:
        for p in running.values():
            p.kill()
        shutil.rmtree(d, ignore_errors=True)
    for r in results:
        if r[0] == 'mach':
            raise MachineryError(r[1])
    return results


def main(prop, run):
    ctx = Ctx(prop)
    code = 2
    try:
        run(ctx)
        code = ctx.finish()
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
    except Exception:
        traceback.print_exc()
        print('MACHINERY ERROR')
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
