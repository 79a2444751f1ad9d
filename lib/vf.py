"""Shared runner: oracle bookkeeping, known findings, evidence, verdicts.

Exit codes: 0 held, 1 violation (VIOLATION line printed), 3 inconclusive / harness error.
"""
import contextlib
import hashlib
import io
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PYHALO_REPO', '/repo')
sys.path.insert(0, HERE)
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
warnings.filterwarnings('ignore')
import lenstronomy_standin  # noqa: E402

LENSTRONOMY = lenstronomy_standin.install()

import numpy as np  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


def rng_for(*key):
    """independent generator for a named purpose (does not touch the global state)"""
    h = hashlib.sha256(repr((SEED,) + key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'little'))


def seed_global(*key):
    """seed the global numpy / random state, which is what pyHalo draws from"""
    import random
    h = hashlib.sha256(repr((SEED,) + key).encode()).digest()
    s = int.from_bytes(h[:4], 'little')
    np.random.seed(s)
    random.seed(s)
    return s


def relerr(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.abs(a - b) / np.maximum(np.abs(b), 1e-300)


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.ravel()[:12].tolist()] + (['...'] if x.size > 12 else [])
    if isinstance(x, (np.floating, float)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:200]


class Check(object):

    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.monitors = {}      # monitor name -> number of observations judged
        self.violations = {}    # key -> list of details
        self.known_hit = {}
        self.errors = []
        self.notes = {}
        self.known = self._load_known()

    def _load_known(self):
        """lines 'property=<id> key=<mechanism> <text>' (finding) in known_findings.txt"""
        out = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('finding: property=%s ' % self.pid):
                    rest = line.split(' ', 2)[2]
                    if rest.startswith('key='):
                        key, _, text = rest[4:].partition(' ')
                        out[key] = text
        return out

    def out_of_time(self, frac=1.0):
        """the workload stops drawing new cases after this budget (limit is 880 s); the floor is in the callers"""
        return time.time() - self.t0 > frac * (700 if THOROUGH else 600)

    # -- observation
    def note(self, name, value):
        self.notes[name] = value

    def count(self, monitor, n=1):
        self.monitors[monitor] = self.monitors.get(monitor, 0) + int(n)

    def case(self, descr, nontrivial=True):
        """register an executed case (an input actually given to the code)"""
        self.evaluations += 1
        p = plain(descr)
        if nontrivial:
            self.distinct.add(hashlib.md5(json.dumps(p, sort_keys=True).encode()).hexdigest())
        if len(self.samples) < 25 or (self.evaluations % 97 == 0 and len(self.samples) < 60):
            self.samples.append(p)

    def expect(self, cond, key, /, **detail):
        """monitor `key` judges one observation"""
        self.count(key)
        ok = bool(np.all(cond))
        if not ok:
            self.fail(key, **detail)
        return ok

    def close(self, a, b, key, rtol=1e-6, atol=0.0, **detail):
        self.count(key)
        try:
            a_, b_ = np.asarray(a, float), np.asarray(b, float)
            if a_.shape != b_.shape and a_.size != b_.size and a_.size != 1 and b_.size != 1:
                self.fail(key, **dict(detail, got_shape=a_.shape, want_shape=b_.shape))
                return False
            a_, b_ = np.broadcast_arrays(a_.ravel() if a_.size > 1 else a_.reshape(-1),
                                         b_.ravel() if b_.size > 1 else b_.reshape(-1))
        except (TypeError, ValueError) as e:
            self.fail(key, **dict(detail, got=a, want=b, error=repr(e)))
            return False
        bad = ~(np.abs(a_ - b_) <= rtol * np.abs(b_) + atol)
        bad &= ~((a_ == b_))
        if a_.size and bad.any():
            i = int(np.argmax(bad))
            self.fail(key, **dict(detail, got=a_[i], want=b_[i], index=i, n_bad=int(bad.sum()), size=int(a_.size), rtol=rtol))
            return False
        return True

    def fail(self, key, /, **detail):
        d = self.known_hit if key in self.known else self.violations
        lst = d.setdefault(key, [])
        if len(lst) < 20:
            lst.append(plain(detail))

    @contextlib.contextmanager
    def scenario(self, name, /, **inputs):
        """an exception escaping from the code under test inside a scenario is a violation of the property
        (the operation did not deliver the promised result); one raised by the harness is judged by `unusable`"""
        try:
            yield
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = [f for f in tb if f.filename.startswith(REPO + '/')]
            harness_last = tb[-1].filename.startswith(VERIF)
            if in_repo and not (harness_last and not tb[-1].filename.endswith('lenstronomy_standin.py')):
                fr = in_repo[-1]
                self.count('completes:' + name)
                self.fail('raises:%s' % name, error='%s: %s' % (type(e).__name__, e),
                          at='%s in %s' % (os.path.relpath(fr.filename, REPO), fr.name), inputs=inputs)
            else:
                self.unusable(name, e, inputs)
        else:
            self.count('completes:' + name)

    def unusable(self, name, e, inputs=None):
        """the monitors could not read what the code returned or left behind. The workload is the same on every tree and reads only
        documented attributes and shapes, so this is a broken promise - unless it concerns the environment or a private name"""
        trace = ''.join(traceback.format_exception(e))[-3000:]
        private = isinstance(e, AttributeError) and str(getattr(e, 'name', None) or '_').startswith('_')
        if private or isinstance(e, (OSError, MemoryError, ImportError, RecursionError)):
            self.errors.append('%s: %s' % (name, trace))
        else:
            self.fail('unusable:%s' % name, error='%s: %s' % (type(e).__name__, e), trace=trace[-900:], inputs=inputs)

    # -- verdict
    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        n_obs = sum(self.monitors.values())
        ev = {
            'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': 'exploration',
            'coverage': {
                'evaluations': int(self.evaluations), 'distinct_nontrivial': len(self.distinct), 'rule': self.rule,
                'samples': self.samples[:40] or ['none'],
                'observations_judged': int(n_obs),
                'observations_per_monitor': dict(sorted(self.monitors.items())),
            },
            'assumptions': ['lenstronomy: ' + LENSTRONOMY],
            'wall_s': round(wall, 2), 'violations': len(self.violations),
        }
        ev['coverage'].update(plain(self.notes))
        if self.known_hit:
            ev['coverage']['known_findings_observed'] = {k: v[:2] for k, v in self.known_hit.items()}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        for k in self.known:
            if k in self.known_hit:
                print('KNOWN-FINDING: property=%s key=%s %s' % (self.pid, k, self.known[k]))
            else:
                print('note: listed finding not observed in this run: property=%s key=%s' % (self.pid, k))
        print('%s tier=%s seed=%d evaluations=%d distinct=%d observations=%d monitors=%d wall=%.1fs'
              % (self.pid, TIER, SEED, self.evaluations, len(self.distinct), n_obs, len(self.monitors), wall))
        code = 0
        if self.violations:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.pid + '.json')
            with open(rp, 'w') as f:
                json.dump({'property': self.pid, 'seed': SEED, 'tier': TIER, 'command':
                           'VERIF_SEED=%d VERIF_TIER=%s %s' % (SEED, TIER, ' '.join(sys.argv)),
                           'violations': self.violations}, f, indent=1)
            for k, v in self.violations.items():
                print('  broken: %s -- %s' % (k, json.dumps(v[0])[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            code = 1
        if self.errors:
            print('HARNESS ERRORS (%d):' % len(self.errors))
            for e in self.errors[:3]:
                print(e[-900:])
            code = code or 3
        if code == 0 and (self.evaluations == 0 or n_obs == 0):
            print('INCONCLUSIVE: nothing was observed')
            code = 3
        sys.stdout.flush()
        return code


@contextlib.contextmanager
def quiet():
    """silence pyHalo's progress prints"""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def main(pid, rule, body):
    ck = Check(pid, rule)
    try:
        with quiet():
            body(ck)
    except ImportError as e:
        # the package (or one of its modules) can no longer be imported: judged like any other exception
        tb = traceback.extract_tb(e.__traceback__)
        if [f for f in tb if f.filename.startswith(REPO + '/')]:
            ck.fail('import', error=repr(e))
        else:
            ck.errors.append(traceback.format_exc()[-3000:])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if tb and tb[-1].filename.startswith(REPO + '/'):
            fr = tb[-1]
            ck.fail('raises:workload', error='%s: %s' % (type(e).__name__, e),
                    at='%s in %s' % (os.path.relpath(fr.filename, REPO), fr.name),
                    trace=traceback.format_exc()[-1500:])
        else:
            ck.unusable('workload', e)
    code = ck.finish()
    # skip interpreter teardown (thread pools etc.)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
