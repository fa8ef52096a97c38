"""Runner, monitors, evidence and replay."""
import os, sys, json, time, random, hashlib, traceback, warnings, collections, multiprocessing, signal, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QMON_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')


class Violation(Exception):
    pass


class Inconclusive(Exception):
    pass


def load_known():
    """known-findings file: 'known: property=<id> key=<key> <text>' lines."""
    out = {}
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            if line.startswith('known: '):
                p = line[7:].split(None, 2)
                prop = p[0].split('=', 1)[1]
                key = p[1].split('=', 1)[1]
                out[(prop, key)] = p[2].strip()
    except FileNotFoundError:
        pass
    return out


class Mon:
    """Collects what the monitors observed in this process."""

    def __init__(self, prop):
        self.prop = prop
        self.ops = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.nsamp = {}
        self.findings = collections.Counter()
        self.known = load_known()
        self.extra = collections.Counter()
        self.cur = None
        self.reach = set()      # library functions seen in processes that a case started

    def ev(self, op, sig=None, sample=None):
        """one oracle evaluation of operation `op`; `sig` identifies the non-trivial equivalence class"""
        self.ops[op] += 1
        if sig is not None:
            h = hashlib.blake2b(repr((op, sig)).encode(), digest_size=8).digest()
            if h not in self.sigs:
                self.sigs.add(h)
                if sample is None:
                    sample = sig
                k = self.nsamp.get(op, 0)
                if k < 2 and len(self.samples) < 60:
                    self.nsamp[op] = k + 1
                    self.samples.append(('%s: %s' % (op, sample))[:300])

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def finding(self, key, msg):
        if (self.prop, key) in self.known:
            self.findings[key] += 1
        else:
            raise Violation('[%s] %s' % (key, msg))

    def dump(self):
        return dict(ops=self.ops, sigs=self.sigs, samples=self.samples, findings=self.findings, extra=self.extra, reach=self.reach)

    def merge(self, d):
        self.ops.update(d['ops'])
        self.sigs |= d['sigs']
        self.samples += d['samples']
        self.findings.update(d['findings'])
        self.extra.update(d['extra'])
        self.reach |= d['reach']


class Reach:
    """Which functions of the package ran (sys.monitoring; each code object reports once)."""

    def __init__(self):
        self.seen = set()
        self.tool = None

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        root = os.path.realpath(os.path.join(REPO, 'quantities')) + os.sep

        def cb(code, off):
            fn = code.co_filename
            if fn.startswith(root) and '/tests/' not in fn:
                self.seen.add('%s:%s' % (fn[len(root):], code.co_qualname))
            return mon.DISABLE
        try:
            mon.use_tool_id(4, 'qmon')
            self.tool = 4
            mon.register_callback(4, mon.events.PY_START, cb)
            mon.set_events(4, mon.events.PY_START)
        except ValueError:
            pass

    def stop(self):
        if self.tool is not None:
            sys.monitoring.set_events(4, 0)
            sys.monitoring.free_tool_id(4)
            self.tool = None


def rng_for(prop, fam, seed, i):
    return random.Random('%s/%s/%s/%s' % (prop, fam, seed, i))


class Family:
    """A stream of cases. fn(rng, mon, i) runs case i and raises Violation.
    `quick`/`thorough` are the number of cases (seeded=False: the case list is the same for every seed)."""

    def __init__(self, name, fn, quick, thorough=None, seeded=True):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = quick if thorough is None else thorough
        self.seeded = seeded

    def n(self, tier):
        return self.thorough if tier == 'thorough' else self.quick


MAXV = 5


def reset_library():
    """bring process-wide library configuration back to its initial state"""
    import quantities as pq
    from quantities import markup
    pq.set_default_units('SI', information='bit')
    pq.quantity.PREFERRED = []
    markup.config.use_unicode = False


def run_case(check, fam, mon, seed, i):
    rng = rng_for(check.PROP, fam.name, seed if fam.seeded else 0, i)
    mon.cur = (fam.name, i)
    state = np.random.get_state()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fam.fn(rng, mon, i)
        return None
    except Violation as e:
        return str(e)
    except Inconclusive:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        tb = traceback.format_exc().splitlines()
        return 'unexpected %s: %s\n    %s' % (type(e).__name__, e, '\n    '.join(tb[-9:]))


def worker(check, plan, seed, deadline, conn):
    mon = Mon(check.PROP)
    reach = Reach()
    reach.start()
    viol = []
    done = 0
    truncated = False
    err = None
    try:
        if hasattr(check, 'setup'):
            try:
                check.setup(mon)
            except Violation as e:
                viol.append(('setup', 0, str(e)))
            except Exception as e:
                viol.append(('setup', 0, 'preparing the workload raised: ' + traceback.format_exc()))
        for fam, idxs in plan:
            for i in idxs:
                if time.time() > deadline:
                    truncated = True
                    break
                msg = run_case(check, fam, mon, seed, i)
                done += 1
                if msg is not None:
                    viol.append((fam.name, i, msg))
                    try:
                        reset_library()
                    except Exception:
                        pass
                    if len(viol) >= MAXV:
                        break
            if truncated or len(viol) >= MAXV:
                break
        if hasattr(check, 'finish') and not viol:
            try:
                check.finish(mon)
            except Violation as e:
                viol.append(('finish', 0, str(e)))
            except Exception as e:
                viol.append(('finish', 0, 'final monitor raised: ' + traceback.format_exc()))
    except Inconclusive as e:
        err = 'inconclusive: %s' % e
    except BaseException as e:
        err = ''.join(traceback.format_exception(e))
    if hasattr(check, 'cleanup'):
        try:
            check.cleanup()
        except Exception:
            pass
    reach.stop()
    res = dict(mon=mon.dump(), viol=viol, done=done, truncated=truncated, err=err, reach=reach.seen)
    if conn is None:
        return res
    import pickle
    conn.send_bytes(pickle.dumps(res))
    conn.close()


def main(check, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    prop = check.PROP
    fams = check.FAMILIES
    byname = {f.name: f for f in fams}
    if '--replay' in argv:
        r = json.load(open(argv[argv.index('--replay') + 1]))
        mon = Mon(prop)
        if hasattr(check, 'setup'):
            check.setup(mon)
        if r['family'] in byname:
            msg = run_case(check, byname[r['family']], mon, r['seed'], r['index'])
        else:
            msg = 'violation of family %s is not a single case: re-run the whole check' % r['family']
        if msg:
            print('reproduced: %s' % msg)
            print('VIOLATION property=%s replay=%s' % (prop, argv[argv.index('--replay') + 1]))
            return 1
        print('not reproduced')
        return 0
    only = argv[argv.index('--family') + 1] if '--family' in argv else None
    scale = float(os.environ.get('QMON_SCALE', '1'))
    if tier == 'quick':
        scale *= getattr(check, 'QUICK_SCALE', 1)
    jobs = getattr(check, 'JOBS', {}).get(tier, 4 if tier == 'quick' else 8)
    jobs = int(os.environ.get('QMON_JOBS', jobs))
    t0 = time.time()
    limit = 420 if tier == 'quick' else getattr(check, 'THOROUGH_LIMIT', 780)
    limit = float(os.environ.get('QMON_LIMIT', limit))
    deadline = t0 + limit
    plans = [[] for _ in range(jobs)]
    total = 0
    planned = {}
    for f in fams:
        if only and f.name != only:
            continue
        n = f.n(tier)
        if f.seeded and n > 1:
            n = max(1, int(n * scale))
        planned[f.name] = n
        total += n
        for j in range(jobs):
            r = range(j, n, jobs)
            if len(r):
                plans[j].append((f, r))
    # serial families run in one worker only when the check asks for it
    results = []
    if jobs == 1:
        results.append(worker(check, plans[0], seed, deadline, None))
    else:
        ctx = multiprocessing.get_context('fork')
        procs = []
        for j in range(jobs):
            if not plans[j]:
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(check, plans[j], seed, deadline, b))
            p.start()
            b.close()
            procs.append((p, a))
        import pickle
        for p, a in procs:
            try:
                if a.poll(max(1, deadline + 60 - time.time())):
                    results.append(pickle.loads(a.recv_bytes()))
                else:
                    results.append(dict(err='worker gave no answer in time', viol=[], done=0, truncated=True,
                                        mon=Mon(prop).dump(), reach=set()))
            except (EOFError, OSError):
                p.join(5)
                results.append(dict(err='worker died (exit code %s)' % p.exitcode, viol=[], done=0, truncated=True,
                                    mon=Mon(prop).dump(), reach=set()))
            if p.is_alive():
                p.join(2)
                if p.is_alive():
                    p.kill()
            p.join()
    mon = Mon(prop)
    viol = []
    done = 0
    truncated = False
    errs = []
    reach = set()
    for r in results:
        mon.merge(r['mon'])
        viol += r['viol']
        done += r['done']
        truncated |= r['truncated']
        reach |= r['reach']
        if r['err']:
            errs.append(r['err'])
    reach |= mon.reach
    viol.sort(key=lambda v: (v[0], v[1]))
    wall = time.time() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': int(sum(mon.ops.values())),
            'distinct_nontrivial': len(mon.sigs),
            'rule': check.RULE,
            'samples': sorted(set(mon.samples))[:40] or ['(none)'],
            'cases_run': done,
            'cases_planned': planned,
            'cut_short_by_time_limit': truncated,
            'events_by_operation': dict(sorted(mon.ops.items())),
            'library_functions_reached': len(reach),
            'library_functions_sample': sorted(reach)[:60],
            'known_findings_seen': dict(mon.findings),
        },
        'assumptions': list(getattr(check, 'ASSUMPTIONS', [])) + [
            'held only on the executions observed; numpy on bare arrays and the reference tables in /verif are trusted'],
        'wall_s': round(wall, 3),
        'violations': len(viol),
    }
    if mon.extra:
        evidence['coverage']['monitor_counters'] = {k: int(v) for k, v in sorted(mon.extra.items())}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    for key in sorted(mon.findings):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, mon.known[(prop, key)]))
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for fam, i, msg in viol[:MAXV]:
            path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (prop, fam, i))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'family': fam, 'index': i, 'seed': seed, 'tier': tier,
                           'message': msg,
                           'how': 'python run.py %s --replay <this file>' % prop}, f, indent=1)
            print('--- %s case %s/%s: %s' % (prop, fam, i, msg))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errs:
        print('ERROR: ' + errs[0])
        return 2
    need = getattr(check, 'REQUIRED_OPS', ())
    missing = [o for o in need if not mon.ops.get(o)]
    if only is None and scale == 1 and (missing or not reach or not mon.sigs or (truncated and done < 0.2 * total)):
        print('INCONCLUSIVE: monitors not reached: %s; functions reached: %d; cases %d/%d'
              % (missing, len(reach), done, total))
        return 2
    print('%s %s seed=%d: held; %d evaluations, %d distinct, %d cases%s, %d library functions reached, %.1f s'
          % (prop, tier, seed, evidence['coverage']['evaluations'], len(mon.sigs), done,
             ' (time limit)' if truncated else '', len(reach), wall))
    return 0
