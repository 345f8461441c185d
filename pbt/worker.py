"""Case executor. Runs under the interpreter of the code under test (PyPy), imports pybrain from
the repository, and executes JSON cases sent line by line on stdin by runner.py.

reply: {"status": ok|viol|discard|error, "msg": str, "labels": [...], "nontrivial": bool}
"""
import sys, os, json, random, traceback, importlib, tempfile, shutil, atexit, warnings, hashlib, signal

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


class Violation(Exception):
    pass


class Discard(Exception):
    pass


def _arr(x):
    import numpy
    return numpy.asarray(x, dtype=float)


class H(object):
    """What a property body gets: assertions, labels, the scratch directory."""
    Violation = Violation
    Discard = Discard

    def __init__(self, scratch):
        self.scratch = scratch
        self.reset(None)

    def reset(self, case):
        self.labels = []
        self._nontrivial = False
        self.case = case

    def label(self, *names):
        for n in names:
            if n not in self.labels:
                self.labels.append(n)

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def discard(self):
        raise Discard()

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        try:
            ok = bool(cond)
        except Exception as e:
            raise Violation('%s (condition not evaluable: %r)' % (msg, e))
        if not ok:
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, got, want, msg):
        try:
            ok = bool(got == want)
        except Exception:
            ok = False
        if not ok:
            raise Violation('%s: got %s, expected %s' % (msg, short(got), short(want)))

    def seq(self, got, want, msg):
        """exact equality of two sequences of plain values"""
        try:
            g = list(got)
        except TypeError:
            raise Violation('%s: got %s, expected %s' % (msg, short(got), short(want)))
        w = list(want)
        if len(g) != len(w) or any(not (a == b) for a, b in zip(g, w)):
            raise Violation('%s: got %s, expected %s' % (msg, short(g), short(w)))

    def close(self, got, want, msg, rtol=1e-7, atol=1e-9):
        import numpy
        w = numpy.asarray(want, dtype=float)
        try:
            g = numpy.asarray(got, dtype=float)
        except Exception:
            raise Violation('%s: got non-numeric %s, expected %s' % (msg, short(got), short(want)))
        if g.shape != w.shape:
            raise Violation('%s: got shape %s, expected %s (got %s, expected %s)'
                            % (msg, g.shape, w.shape, short(g), short(w)))
        with numpy.errstate(all='ignore'):
            same = (g == w) | (numpy.isnan(g) & numpy.isnan(w)) | (abs(g - w) <= atol + rtol * abs(w))
        if not numpy.all(same):
            raise Violation('%s: got %s, expected %s' % (msg, short(g), short(w)))

    def raises(self, types, fn, msg):
        """fn() has to raise one of types"""
        try:
            r = fn()
        except types:
            return
        raise Violation('%s: no exception, result %s' % (msg, short(r)))

    def call(self, msg, fn, *a, **k):
        """call into pybrain where any exception is a violation, whichever frame raises it"""
        try:
            return fn(*a, **k)
        except (Violation, Discard):
            raise
        except Exception as e:
            raise Violation('%s: unexpected %s: %s' % (msg, type(e).__name__, e))


def short(x, n=300):
    try:
        import numpy
        if isinstance(x, numpy.ndarray):
            x = x.tolist()
    except Exception:
        pass
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def case_seed(case):
    return int(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:8], 16)


def execute(mod, facet, case, h):
    import numpy
    h.reset(case)
    s = case_seed(case)
    random.seed(s)
    numpy.random.seed(s % (2 ** 32))
    cwd = h.scratch
    os.chdir(cwd)
    try:
        mod.FACETS[facet]['run'](case, h)
        status, msg = 'ok', ''
    except Violation as e:
        status, msg = 'viol', str(e)
    except Discard:
        status, msg = 'discard', ''
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inrepo = [f for f in tb if os.path.abspath(f.filename).startswith(REPO + '/')]
        text = ''.join(traceback.format_exception(*sys.exc_info()))[-3000:]
        if inrepo:
            f = inrepo[-1]
            status = 'viol'
            msg = 'unexpected %s: %s (raised at %s:%s in %s)' % (
                type(e).__name__, e, os.path.relpath(f.filename, REPO), f.lineno, f.name)
        else:
            status, msg = 'error', text
    for n in os.listdir(cwd):
        p = os.path.join(cwd, n)
        try:
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        except OSError:
            pass
    return {'status': status, 'msg': msg[:3000], 'labels': h.labels, 'nontrivial': h._nontrivial}


def main():
    propid = sys.argv[1]
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    warnings.simplefilter('ignore')
    sys.path.insert(0, HERE)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    scratch = tempfile.mkdtemp(prefix='pbt_')
    atexit.register(lambda: (os.chdir('/'), shutil.rmtree(scratch, ignore_errors=True)))
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    import numpy
    numpy.seterr(all='ignore')
    sys.setrecursionlimit(5000)
    mod = importlib.import_module('props.' + propid.lower())
    h = H(scratch)
    out.write(json.dumps({'status': 'ready'}) + '\n')
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        rep = execute(mod, req['facet'], req['case'], h)
        out.write(json.dumps(rep) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
