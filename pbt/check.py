#!/opt/veriftools/pyvenv/bin/python
"""check.py ID [--tier quick|thorough] [--replay FILE]

Property-based check of one property of /verif/properties.jsonl. Hypothesis generates JSON cases,
a PyPy worker (worker.py) executes them on the code in /repo together with the oracle.
exit 0: held on everything explored; 1: VIOLATION; 2: error of the check itself.
"""
import sys, os, json, time, subprocess, select, hashlib, importlib, argparse, shutil, tempfile, signal

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = os.environ.get('VERIF_PYPY', '/opt/pypyvenv/bin/python')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
NSHARDS = int(os.environ.get('VERIF_SHARDS', '8'))
T_CASE, T_RETRY = 60, 120
SHRINK_SECONDS, SHRINK_CASES = 45, 600


class HarnessError(Exception):
    pass


class Stop(SystemExit):
    pass


class Worker(object):
    def __init__(self, propid):
        self.propid = propid
        self.p = None
        self.log = []

    def start(self):
        env = dict(os.environ)
        env.update(PYTHONPATH=REPO, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO,
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([PYPY, '-W', 'ignore', os.path.join(HERE, 'worker.py'), self.propid],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  start_new_session=True)
        self.buf = b''
        self.log = []
        r = self._read(240)
        if r is None or r.get('status') != 'ready':
            self.err.seek(0)
            text = self.err.read()[-2000:].decode('utf8', 'replace')
            self.kill()
            raise HarnessError('worker did not start: ' + text)

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGTERM)
                try:
                    self.p.wait(3)
                except subprocess.TimeoutExpired:
                    os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.stdin.close()
            self.p.stdout.close()
            self.p.wait()
            self.err.close()
            self.p = None

    def close(self):
        """orderly end: the worker removes its scratch directory"""
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                pass
            self.kill_quiet()

    def kill_quiet(self):
        try:
            self.kill()
        except Exception:
            pass

    def _read(self, timeout):
        """None: timeout; {} : died"""
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if r:
                d = os.read(fd, 1 << 16)
                if not d:
                    return {}
                self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def one(self, facet, case, timeout):
        if self.p is None:
            self.start()
        self.log.append((facet, case))
        try:
            self.p.stdin.write((json.dumps({'facet': facet, 'case': case}) + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        r = self._read(timeout)
        if r is None:
            self.kill()
            return {'status': 'hang', 'msg': 'does not terminate within %d s' % timeout, 'labels': [], 'nontrivial': True}
        if r == {}:
            self.err.seek(0)
            text = self.err.read()[-1500:].decode('utf8', 'replace')
            self.kill()
            return {'status': 'died', 'msg': 'the interpreter died: ' + text, 'labels': [], 'nontrivial': True}
        return r

    def run(self, facet, case):
        r = self.one(facet, case, T_CASE)
        if r['status'] in ('hang', 'died'):
            r2 = self.one(facet, case, T_RETRY)
            if r2['status'] in ('hang', 'died'):
                r2 = dict(r2, status='viol', hard=True)
            return r2
        return r


def canon(case):
    return json.dumps(case, sort_keys=True)


def digest(facet, case):
    return hashlib.sha1((facet + canon(case)).encode()).hexdigest()[:14]


def facet_counts(mod, tier):
    return dict((f, d['quick'] if tier == 'quick' else d.get('thorough', d['quick'] * 10)) for f, d in mod.FACETS.items())


def run_shard(propid, tier, seed, shard, nshards, outfile):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, strategies as st
    mod = importlib.import_module('props.' + propid.lower())
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    out = {'evaluations': 0, 'hashes': [], 'labels': {}, 'samples': [], 'discards': 0, 'violation': None,
           'error': None, 'facets': {}}
    W = Worker(propid)
    try:
        for fi, (facet, spec) in enumerate(sorted(mod.FACETS.items())):
            total = int(facet_counts(mod, tier)[facet] * scale)
            n = total // nshards + (1 if shard < total % nshards else 0)
            if n <= 0:
                continue
            st_ = {'fail': None, 'since': None, 'ncases': 0}
            nhash = set()
            fl = out['facets'].setdefault(facet, {'evaluations': 0, 'nontrivial': 0})

            def body(case):
                if st_['fail'] is not None:
                    st_['ncases'] += 1
                    if time.time() - st_['since'] > SHRINK_SECONDS or st_['ncases'] > SHRINK_CASES:
                        raise Stop()
                r = W.run(facet, case)
                s = r['status']
                if s == 'error':
                    out['error'] = 'facet %s case %s\n%s' % (facet, canon(case)[:2000], r['msg'])
                    raise Stop()
                if st_['fail'] is None:
                    out['evaluations'] += 1
                    fl['evaluations'] += 1
                    if s == 'discard':
                        out['discards'] += 1
                    for l in r['labels']:
                        k = "%s:%s" % (facet, l)
                        out['labels'][k] = out['labels'].get(k, 0) + 1
                    if r['nontrivial'] and s != 'discard':
                        hsh = digest(facet, case)
                        if hsh not in nhash:
                            nhash.add(hsh)
                            fl['nontrivial'] += 1
                            c = canon(case)
                            if len([x for x in out['samples'] if x['facet'] == facet]) < 2 and len(c) < 1500 and fl['nontrivial'] > 3:
                                out['samples'].append({'facet': facet, 'case': case})
                if s == 'discard':
                    hypothesis.reject()
                if s == 'viol':
                    key = (len(canon(case)), canon(case))
                    if st_['fail'] is None or key < st_['fail'][0]:
                        st_['fail'] = (key, case, r['msg'], list(W.log) if st_['fail'] is None else None)
                        if st_.get('log') is None:
                            st_['log'] = list(W.log)
                    if st_['since'] is None:
                        st_['since'] = time.time()
                    if r.get('hard'):
                        raise Stop()
                    raise AssertionError(r['msg'])

            fseed = int(hashlib.sha1(('%s/%s/%d/%d' % (propid, facet, seed, shard)).encode()).hexdigest()[:8], 16)
            test = given(spec['gen'](st))(body)
            test = settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                            suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                            print_blob=False, verbosity=hypothesis.Verbosity.quiet)(test)
            test = hypothesis.seed(fseed)(test)
            try:
                test()
            except Stop:
                pass
            except AssertionError:
                pass
            except HarnessError:
                raise
            except Exception as e:
                if st_['fail'] is None:
                    import traceback
                    out['error'] = 'facet %s: %s' % (facet, traceback.format_exc()[-3000:])
            out['hashes'].extend(nhash)
            if out['error']:
                break
            if st_['fail'] is not None:
                _, case, msg, _ = st_['fail']
                out['violation'] = {'facet': facet, 'case': case, 'msg': msg, 'log': st_.get('log') or []}
                break
    except HarnessError as e:
        out['error'] = str(e)
    except Exception:
        import traceback
        out['error'] = traceback.format_exc()[-3000:]
    finally:
        W.close()
    with open(outfile, 'w') as f:
        json.dump(out, f)


def confirm(propid, v):
    """re-run a found violation in a fresh worker; returns a replay object or None"""
    W = Worker(propid)
    try:
        r = W.run(v['facet'], v['case'])
        if r['status'] == 'viol':
            return {'property': propid, 'history': [{'facet': v['facet'], 'case': v['case']}], 'message': r['msg']}
        W.close()
        # state carried over from earlier cases: the history is the reproduction
        log = v['log'][-400:]
        k = 2
        while True:
            W = Worker(propid)
            part = log[-k:]
            last = None
            for f, c in part:
                last = W.run(f, c)
            W.close()
            if last and last['status'] == 'viol':
                return {'property': propid, 'history': [{'facet': f, 'case': c} for f, c in part], 'message': last['msg']}
            if k >= len(log):
                return None
            k *= 4
    finally:
        W.close()


def known_findings(propid):
    path = os.path.join(ROOT, 'known_findings.jsonl')
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            e = json.loads(line)
            if e.get('property') == propid and e.get('status') == 'known':
                res.append(e)
    return res


def regressions(propid):
    path = os.path.join(HERE, 'regress', propid.lower() + '.jsonl')
    if not os.path.exists(path):
        return []
    return [json.loads(l) for l in open(path) if l.strip()]


def write_evidence(propid, tier, seed, cov, wall, violations, assumptions):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {'property': propid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}
    with open(os.path.join(d, propid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')


def write_replay(propid, obj):
    d = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (propid, hashlib.sha1(canon(obj['history']).encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True)
    return p


def replay(propid, path):
    obj = json.load(open(path))
    W = Worker(propid)
    last = None
    for e in obj['history']:
        last = W.run(e['facet'], e['case'])
        if last['status'] == 'error':
            print(last['msg'])
            return 2
    W.close()
    print(last['status'], last['msg'])
    if last['status'] == 'viol':
        print('VIOLATION property=%s replay=%s' % (propid, path))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--out')
    ap.add_argument('--facet', help='development: only this facet')
    ap.add_argument('--labels', action='store_true', help='development: print the label distribution')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    propid = a.id.upper()
    if a.facet or os.environ.get('VERIF_FACET'):
        os.environ['VERIF_FACET'] = a.facet or os.environ['VERIF_FACET']
        mod = importlib.import_module('props.' + propid.lower())
        for f in list(mod.FACETS):
            if f != os.environ['VERIF_FACET']:
                del mod.FACETS[f]
    if a.shard is not None:
        run_shard(propid, tier, seed, a.shard, NSHARDS, a.out)
        return 0
    if a.replay:
        return replay(propid, a.replay)
    t0 = time.time()
    mod = importlib.import_module('props.' + propid.lower())
    nshards = NSHARDS
    known = known_findings(propid)
    W = Worker(propid)
    violation = None
    nreg = 0
    try:
        for e in known:
            r = W.run(e['facet'], e['case'])
            if r['status'] == 'viol' and e['expect'] in r['msg']:
                print('KNOWN-FINDING: property=%s %s' % (propid, e['what']))
            elif r['status'] == 'viol':
                violation = {'facet': e['facet'], 'case': e['case'], 'msg': r['msg'], 'log': []}
                break
            elif r['status'] == 'error':
                print('check error: ' + r['msg'])
                return 2
        if violation is None:
            for e in regressions(propid):
                if e['facet'] not in mod.FACETS:
                    continue
                nreg += 1
                r = W.run(e['facet'], e['case'])
                if r['status'] == 'viol':
                    violation = {'facet': e['facet'], 'case': e['case'], 'msg': r['msg'], 'log': []}
                    break
                if r['status'] == 'error':
                    print('check error: ' + r['msg'])
                    return 2
    except HarnessError as e:
        print('check error: %s' % e)
        return 2
    finally:
        W.close()
    outs = []
    if violation is None:
        tmp = tempfile.mkdtemp(prefix='pbtrun_')
        try:
            procs = []
            for i in range(nshards):
                o = os.path.join(tmp, '%d.json' % i)
                cmd = [sys.executable, os.path.abspath(__file__), propid, '--tier', tier, '--shard', str(i), '--out', o]
                procs.append((subprocess.Popen(cmd, env=dict(os.environ, PYTHONHASHSEED='0')), o))
            for p, o in procs:
                p.wait()
                if os.path.exists(o):
                    outs.append(json.load(open(o)))
                else:
                    outs.append({'error': 'shard ended with %s' % p.returncode})
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    errors = [o['error'] for o in outs if o.get('error')]
    good = [o for o in outs if 'evaluations' in o]
    hashes = set()
    labels, facets, samples = {}, {}, []
    for o in good:
        hashes.update(o['hashes'])
        for k, v in o['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for f, d in o['facets'].items():
            e = facets.setdefault(f, {'evaluations': 0, 'nontrivial': 0})
            e['evaluations'] += d['evaluations']
            e['nontrivial'] += d['nontrivial']
    for f in sorted(facets):
        for o in good:
            s = [x for x in o['samples'] if x['facet'] == f]
            if s:
                samples.append(s[0])
                break
    cov = {'evaluations': sum(o['evaluations'] for o in good), 'distinct_nontrivial': len(hashes),
           'rule': mod.RULE, 'samples': samples or [{'note': 'stopped before a sample was taken'}],
           'labels': labels, 'facets': facets, 'discarded': sum(o['discards'] for o in good), 'regressions_replayed': nreg,
           'known_findings': len(known)}
    candidates = [violation] if violation else [o['violation'] for o in good if o['violation']]
    code = 0
    for v in candidates:
        try:
            obj = confirm(propid, v)
        except HarnessError as e:
            errors.append(str(e))
            continue
        if obj is None:
            errors.append('a violation did not reproduce in a fresh process: facet %s case %s: %s' % (v['facet'], canon(v['case'])[:1500], v['msg']))
            continue
        path = write_replay(propid, obj)
        print('%s / %s: %s' % (propid, v['facet'], obj['message']))
        print('case: ' + canon(obj['history'][-1]['case'])[:3000])
        print('VIOLATION property=%s replay=%s' % (propid, path))
        code = 1
        break
    if code == 0 and errors:
        print('check error: ' + errors[0])
        code = 2
    write_evidence(propid, tier, seed, cov, time.time() - t0, 1 if code == 1 else 0, getattr(mod, 'ASSUMPTIONS', []))
    if a.labels:
        for k in sorted(labels):
            print('%8d %s' % (labels[k], k))
    if code == 0:
        print('%s ok: %d cases, %d distinct non-trivial, %.1f s' % (propid, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    return code


if __name__ == '__main__':
    sys.exit(main())
