"""Runs the harnesses of one property: symbolically in worker processes, then the solver's models on the real code."""
import builtins
import collections
import contextlib
import fractions
import gc
import importlib
import io
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import resource
import signal
import sys
import time
import traceback
import types

OUT = os.environ.get('VERIF_SCRATCH')  # where evidence and replays go when bugs are tried out
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PDFSYNTAX_REPO', '/repo')
ROOTS = {'pdfsyntax': os.path.join(REPO, 'pdfsyntax'), 'props': os.path.join(VERIF, 'props')}


class Timeout(BaseException):
    pass


class Rejected(BaseException):
    """A concrete input outside the harness's assumptions."""


class CheckFailed(BaseException):
    pass


# --------------------------------------------------------------------------- contexts

class SymCtx:
    """What a harness uses to make inputs and state properties, symbolic side."""
    symbolic = True

    def __init__(self, path, E, R):
        self.p = path
        self.E = E
        self.R = R

    def int(self, name, lo=None, hi=None):
        v = self.p.fresh(name, lo, hi)
        self.p.inputs.append((name, v))
        return v

    def real(self, name, lo=None, hi=None):
        E = self.E
        v = self.p.fresh(name, lo, hi, True)
        if isinstance(v, E.SymNum):
            v = E.as_float(v)
        self.p.inputs.append((name, v))
        return v

    def byte(self, name, allowed=None):
        """An int in 0..255, or one of allowed (a bytes object)."""
        if allowed is None:
            return self.int(name, 0, 255)
        vals = sorted(set(allowed))
        v = self.int(name, vals[0], vals[-1])
        if len(vals) > 1:
            self.p.assume(self.E.in_set(v, vals))
        return v

    def bytes(self, name, n, allowed=None):
        return self.E.seq_of(bytes, [self.byte(f'{name}[{i}]', allowed) for i in range(n)])

    def text(self, name, n, allowed=None, lo=0, hi=127):
        if allowed is not None:
            allowed = [ord(x) if isinstance(x, str) else x for x in allowed]
            items = [self.byte(f'{name}[{i}]', allowed) for i in range(n)]
        else:
            items = [self.int(f'{name}[{i}]', lo, hi) for i in range(n)]
        return self.E.seq_of(str, items)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self.p.fresh(name, 0, len(options) - 1)
        self.p.inputs.append((name, v))
        return options[self.E.concretize(v)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def concrete(self, x):
        return self.E.concretize(x)

    def assume(self, cond):
        self.p.assume(cond)

    def check(self, cond, msg):
        if type(cond) is not bool and not isinstance(cond, self.E.SymBool):
            cond = bool(cond)
        self.p.checks.append((cond, msg))
        if cond is False:
            raise CheckFailed()

    def same(self, a, b, msg):
        r = self.E.eq(a, b)
        if r is NotImplemented:
            r = False
        self.check(r, (msg, a, b))

    def close(self, a, b, msg, tol=1e-6):
        self.check(self._near(a, b, tol), (msg, a, b))

    def _near(self, a, b, tol):
        E = self.E
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return E.mk_and([self._near(x, y, tol) for x, y in zip(a, b)])
        num = (int, float, fractions.Fraction, E.SymNum)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, E.SymNum) and not isinstance(b, E.SymNum):
                return near(a, b, tol)
            d = E.norm(a - b)
            if not isinstance(d, E.SymNum):
                return abs(d) <= tol
            t = fractions.Fraction(repr(tol))
            return E.mk_and([d <= t, d >= -t])
        return E.eq(a, b)

    def le(self, a, b, msg, tol=1e-6):
        self.check(a <= b + fractions.Fraction(repr(tol)) if isinstance(a, self.E.SymNum) or isinstance(b, self.E.SymNum) else a <= b + tol, msg)

    def fail(self, msg):
        self.check(False, msg)

    def genuine(self, e):
        """An exception of the code under test that the property allows; limits of the executor are passed on."""
        if isinstance(e, (RecursionError, MemoryError)) or executor_limit(e):
            raise e

    def observe(self, *x):
        self.p.obs.append(x)

    def printed(self):
        return self.E.seq_join('', [x for x in self.p.out])

    def forget_printed(self):
        self.p.out.clear()

    def set_open(self, f, *modules):
        for m in modules:
            m.open = f

    def fresh(self):
        """The package as it is right after being imported, whatever the instance in use went through."""
        return fresh_package()


def text_of(msg):
    if type(msg) is tuple:
        return msg[0] + ': ' + short(msg[1]) + ' / ' + short(msg[2])
    return msg


def short(x):
    try:
        s = repr(x)
    except Exception:
        s = object.__repr__(x)
    return s if len(s) < 160 else s[:157] + '...'


class ConcCtx:
    """The same interface over concrete values and the uninstrumented code."""
    symbolic = False

    def __init__(self, values):
        self.v = values
        self.failed = []
        self.nchecks = 0
        self.obs = []
        self.used = set()
        self.out = io.StringIO()

    def _get(self, name, default):
        self.used.add(name)
        return self.v.get(name, default)

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        d = lo if lo is not None else hi if hi is not None else 0
        r = int(self._get(name, d))
        if lo is not None and r < lo or hi is not None and r > hi:
            raise Rejected()
        return r

    def real(self, name, lo=None, hi=None):
        d = lo if lo is not None else hi if hi is not None else 0
        return float(self._get(name, d))

    def byte(self, name, allowed=None):
        if allowed is None:
            return self.int(name, 0, 255)
        vals = sorted(set(allowed))
        if len(vals) == 1:
            return vals[0]
        r = int(self._get(name, vals[0]))
        if r not in vals:
            raise Rejected()
        return r

    def bytes(self, name, n, allowed=None):
        return bytes([self.byte(f'{name}[{i}]', allowed) for i in range(n)])

    def text(self, name, n, allowed=None, lo=0, hi=127):
        if allowed is not None:
            allowed = [ord(x) if isinstance(x, str) else x for x in allowed]
            return ''.join([chr(self.byte(f'{name}[{i}]', allowed)) for i in range(n)])
        return ''.join([chr(self.int(f'{name}[{i}]', lo, hi)) for i in range(n)])

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 0))]

    def flag(self, name):
        return self.choice(name, [False, True])

    def concrete(self, x):
        return x

    def assume(self, cond):
        if not cond:
            raise Rejected()

    def check(self, cond, msg):
        self.nchecks += 1
        if not cond:
            self.failed.append(msg)
            raise CheckFailed()

    def same(self, a, b, msg):
        ok = type(a) is type(b) or not isinstance(a, (bytes, str, list, dict)) and not isinstance(b, (bytes, str, list, dict))
        self.check(ok and a == b, msg + ': ' + short(a) + ' / ' + short(b))

    def close(self, a, b, msg, tol=1e-6):
        self.check(near(a, b, tol), msg + ': ' + short(a) + ' / ' + short(b))

    def le(self, a, b, msg, tol=1e-6):
        self.check(a <= b + tol * max(1, abs(a), abs(b)), msg)

    def fail(self, msg):
        self.check(False, msg)

    def genuine(self, e):
        pass

    def observe(self, *x):
        self.obs.append(x)

    def printed(self):
        return self.out.getvalue()

    def forget_printed(self):
        self.out.seek(0)
        self.out.truncate()

    def set_open(self, f, *modules):
        for m in modules:
            m.open = f

    def fresh(self):
        """The package as it is right after being imported, whatever the instance in use went through."""
        return fresh_package()


def near(a, b, tol=1e-6):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float, fractions.Fraction)) and isinstance(b, (int, float, fractions.Fraction)):
        return a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))
    return type(a) == type(b) and a == b


# --------------------------------------------------------------------------- loading

def fresh_modules(prop):
    """Drop and re-execute the package and the harness, so that module state never survives a run."""
    for n in [n for n in sys.modules if n.split('.')[0] in ROOTS]:
        del sys.modules[n]
    return importlib.import_module('props.' + prop.lower())


def fresh_package():
    old = {n: sys.modules.pop(n) for n in list(sys.modules) if n.split('.')[0] == 'pdfsyntax'}
    try:
        return importlib.import_module('pdfsyntax')
    finally:
        for n in [n for n in sys.modules if n.split('.')[0] == 'pdfsyntax']:
            del sys.modules[n]
        sys.modules.update(old)


class Snapshot:
    """The state of the loaded modules right after import, put back before each run (cheaper than importing again)."""

    class Odd(Exception):
        pass

    def __init__(self, prop):
        self.mods = {n: m for n, m in sys.modules.items() if n.split('.')[0] in ROOTS}
        self.main = self.mods['props.' + prop.lower()]
        self.dicts = []
        self.funcs = {}
        self.classes = {}
        self.state = []           # (target dict or class, name, value) of mutable values
        self.ok = True
        try:
            for m in self.mods.values():
                for k, v in m.__dict__.items():
                    if k.startswith('__'):
                        continue
                    if self.mutable(v):
                        self.state.append((m.__dict__, k, v))
                self.dicts.append((m.__dict__, dict(m.__dict__)))
            self.defaults = [(f, f.__defaults__, f.__kwdefaults__) for f in self.funcs.values() if f.__defaults__ or f.__kwdefaults__]
            self.fstate = [(f, f.__dict__) for f in self.funcs.values() if f.__dict__]
            self.defaults = [x for x in self.defaults if any(self.mutable(v) for v in (x[1] or ())) or any(self.mutable(v) for v in (x[2] or {}).values())]
            self.cls = [(c, dict(c.__dict__)) for c in self.classes.values()]
            self.clsstate = [(c, k, v) for c, d in self.cls for k, v in d.items() if not k.startswith('__') and self.mutable(v)]
            import copy
            self.copy = copy.deepcopy
            self.pristine = self.copy(([v for _, _, v in self.state], [(a, b) for _, a, b in self.defaults], [v for _, _, v in self.clsstate], [d for _, d in self.fstate]))
        except Snapshot.Odd:
            self.ok = False

    ATOMS = (type(None), bool, int, float, str, bytes, complex, range, fractions.Fraction, types.ModuleType, types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType, type(Ellipsis))

    def mutable(self, v):
        t = type(v)
        if t in self.ATOMS:
            return False
        if t is types.FunctionType:
            if id(v) not in self.funcs and v.__module__ and v.__module__.split('.')[0] in ROOTS:
                self.funcs[id(v)] = v
                for c in v.__closure__ or ():
                    try:
                        if self.mutable(c.cell_contents):
                            raise Snapshot.Odd()
                    except ValueError:
                        pass
                for d in (v.__defaults__ or ()):
                    self.mutable(d)
            return False
        if isinstance(v, type):
            if v.__module__.split('.')[0] in ROOTS and id(v) not in self.classes:
                self.classes[id(v)] = v
                for x in v.__dict__.values():
                    self.mutable(x.__func__ if isinstance(x, (staticmethod, classmethod)) else x)
            return False
        if t is tuple:
            return any([self.mutable(x) for x in v])
        if t in (list, dict, set, bytearray):
            for x in (list(v.values()) if t is dict else v):
                self.mutable(x)
            return True
        if t is frozenset or t.__module__ in ('typing', 're', 'functools', 'builtins', 'types', 'operator', '_operator', 'collections', '_collections', 'dataclasses', 'enum', '__future__', '_thread'):
            if hasattr(v, 'cache_clear'):
                raise Snapshot.Odd()
            return False
        raise Snapshot.Odd()

    def restore(self):
        st, df, cs, fs = self.copy(self.pristine)
        for d, saved in self.dicts:
            if len(d) != len(saved) or True:
                d.clear()
                d.update(saved)
        for (d, k, _), v in zip(self.state, st):
            d[k] = v
        for (f, _, _), (a, b) in zip(self.defaults, df):
            f.__defaults__, f.__kwdefaults__ = a, b
        for (f, _), d in zip(self.fstate, fs):
            f.__dict__.clear()
            f.__dict__.update(d)
        for c, d in self.cls:
            if len(c.__dict__) != len(d):
                for k in [k for k in c.__dict__ if k not in d]:
                    delattr(c, k)
        for (c, k, _), v in zip(self.clsstate, cs):
            setattr(c, k, v)
        for n, m in self.mods.items():
            sys.modules[n] = m
        return self.main


_snap = {}


def quick_modules(prop):
    s = _snap.get(prop)
    if s is None:
        m = fresh_modules(prop)
        _snap[prop] = Snapshot(prop)
        return m
    if not s.ok:
        return fresh_modules(prop)
    return s.restore()


def install(instrumented):
    from . import instrument
    sys.dont_write_bytecode = True
    for f in [f for f in sys.meta_path if isinstance(f, instrument.Finder)]:
        sys.meta_path.remove(f)
    sys.meta_path.insert(0, instrument.Finder(ROOTS, instrumented))


def list_cases(prop, tier):
    """(name, function name, kwargs, bounds text) of the harness's cases, from the plain module."""
    install(False)
    m = fresh_modules(prop)
    out = []
    for c in m.CASES:
        name, fn, variants, bounds = c[:4]
        vs = variants.get(tier) if isinstance(variants, dict) else variants
        if vs is None:
            vs = variants['quick']
        for kw in vs:
            tag = ','.join(f'{k}={v}' for k, v in kw.items())
            out.append((name + (f'({tag})' if tag else ''), fn.__name__, dict(kw), bounds))
    return m, out


# --------------------------------------------------------------------------- concrete side

def conc_run(prop, fn, kw, values, seconds=10):
    """Run one harness on the real code. Returns (status, detail, observations)."""
    m = fresh_modules(prop)
    c = ConcCtx(values)

    def onalarm(s, f):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        with contextlib.redirect_stdout(c.out):
            getattr(m, fn)(c, **kw)
        r = ('ok', '')
    except CheckFailed:
        r = ('fail', c.failed[-1])
    except Rejected:
        r = ('rejected', '')
    except Timeout:
        r = ('fail', f'no result after {seconds} s')
    except RecursionError as e:
        r = ('fail', 'RecursionError: ' + where(e))
    except MemoryError:
        r = ('fail', 'MemoryError')
    except Exception as e:
        r = ('fail', f'{type(e).__name__}: {e} at {where(e)}')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return r[0], r[1], c.obs, c.nchecks


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    tb = [f for f in tb if '/symex/' not in f.filename]
    if not tb:
        return '?'
    f = tb[-1]
    return f'{os.path.basename(f.filename)}:{f.lineno} {f.name}'


def conc_server(conn, prop):
    """A process with the plain code: answers (fn, kw, values, seconds)."""
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    install(False)
    sys.setrecursionlimit(1000)
    while True:
        try:
            req = conn.recv()
        except EOFError:
            return
        if req is None:
            return
        fn, kw, values, seconds = req
        try:
            r = conc_run(prop, fn, kw, values, seconds)
            conn.send((r[0], r[1], plain(r[2]), r[3]))
        except BaseException as e:
            conn.send(('error', f'{type(e).__name__}: {e}', None, 0))


class ConcPool:
    def __init__(self, prop, n):
        self.prop = prop
        self.n = n
        self.procs = []
        self.used = 0

    def start(self):
        while len(self.procs) < self.n:
            a, b = mp.Pipe()
            p = mp.Process(target=conc_server, args=(b, self.prop), daemon=True)
            p.start()
            b.close()
            self.procs.append([p, a])

    def run_all(self, reqs, seconds=10, until=None):
        """Run requests (key, fn, kw, values); returns {key: result}."""
        self.start()
        todo = collections.deque(reqs)
        busy = {}
        out = {}
        while todo or busy:
            for pr in self.procs:
                if todo and pr[1] not in busy and not (until and time.time() > until):
                    k, fn, kw, values = todo.popleft()
                    pr[1].send((fn, kw, values, seconds))
                    busy[pr[1]] = (k, pr, time.time())
            if until and time.time() > until:
                todo.clear()
            if not busy:
                break
            ready = mpc.wait(list(busy), timeout=1)
            for c in ready:
                k, pr, t = busy.pop(c)
                try:
                    out[k] = c.recv()
                except EOFError:
                    out[k] = ('fail', 'the process died', None, 0)
                    self.replace(pr)
            for c in list(busy):
                k, pr, t = busy[c]
                if time.time() - t > seconds + 5:
                    busy.pop(c)
                    pr[0].kill()
                    out[k] = ('fail', f'no result after {seconds} s (killed)', None, 0)
                    self.replace(pr)
        return out

    def replace(self, pr):
        i = self.procs.index(pr)
        self.procs.pop(i)
        self.start()

    def stop(self):
        for p, c in self.procs:
            with contextlib.suppress(Exception):
                c.send(None)
            p.join(0.2)
            if p.is_alive():
                p.kill()
        self.procs = []


def plain(x, depth=0):
    """A comparable, picklable picture of an observed value."""
    if depth > 12:
        return '...'
    t = type(x)
    if x is None or t in (bool, int, str, bytes):
        return x
    if t is fractions.Fraction:
        return float(x)
    if t is float:
        return x
    if t is complex:
        return ('complex', x.real, x.imag)
    if t is list:
        return [plain(y, depth + 1) for y in x]
    if isinstance(x, tuple):
        return tuple(plain(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return ('dict', sorted(((repr(plain(k, depth + 1)), plain(v, depth + 1)) for k, v in x.items()), key=lambda z: z[0]))
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(repr(plain(y, depth + 1)) for y in x))
    if isinstance(x, (bytearray,)):
        return bytes(x)
    if hasattr(x, '__dataclass_fields__'):
        return ('obj', type(x).__name__) + tuple(plain(getattr(x, f), depth + 1) for f in x.__dataclass_fields__)
    if isinstance(x, Exception):
        return ('exc', type(x).__name__)
    return ('?', type(x).__name__)


def obs_equal(a, b):
    if isinstance(a, (float, int)) and isinstance(b, (float, int)) and not (type(a) is bool or type(b) is bool):
        return near(a, b, 1e-9)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(obs_equal(x, y) for x, y in zip(a, b))
    return a == b


# --------------------------------------------------------------------------- symbolic side

def sym_worker(conn, prop, opts):
    from . import engine as E
    from . import runtime as R
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(3000)
    install(True)
    E.cur = E.Path([], {'max_steps': 10 ** 9, 'path_seconds': 10 ** 6})
    fresh_modules(prop)
    gc.collect()
    gc.freeze()
    names = None
    while True:
        try:
            req = conn.recv()
        except EOFError:
            return
        if req is None:
            return
        fn, kw, prefixes, slice_s, copts = req
        o = dict(opts)
        o.update(copts)
        res = explore(E, R, prop, fn, kw, prefixes, slice_s, o)
        code = set()
        for c in R.seen_code:
            code.add((c.co_filename, c.co_qualname, c.co_firstlineno))
        res['code'] = code
        conn.send(res)


def explore(E, R, prop, fn, kw, prefixes, slice_s, opts):
    stack = [tuple(p) for p in prefixes]
    t0 = time.time()
    res = {'paths': 0, 'decisions': 0, 'reached': 0, 'infeasible': 0, 'incomplete': [], 'viol': [], 'samples': [],
           'z3': 0, 'z3_s': 0.0, 'trivial': 0, 'vcs': 0, 'conc': 0, 'steps': 0, 'left': [], 'checks': 0}
    n = 0
    while stack:
        if n and time.time() - t0 > slice_s:
            break
        prefix = stack.pop()
        n += 1
        run_path(E, R, prop, fn, kw, prefix, opts, stack, res)
        if res['viol']:
            break
    res['left'] = stack
    res['time'] = time.time() - t0
    return res


def executor_limit(e):
    return isinstance(e, (TypeError, AttributeError, NotImplementedError)) and 'Sym' in str(e) or any('/symex/' in f.filename for f in traceback.extract_tb(e.__traceback__)[-1:]) and isinstance(e, (AssertionError, AttributeError, NameError))


def run_path(E, R, prop, fn, kw, prefix, opts, stack, res):
    p = E.Path(prefix, opts)
    E.cur = p
    c = SymCtx(p, E, R)
    status, detail = 'ok', ''
    try:
        m = quick_modules(prop)
        p.steps = 0
        getattr(m, fn)(c, **kw)
    except CheckFailed:
        pass
    except E.Infeasible:
        status = 'infeasible'
    except E.Unsupported as e:
        status, detail = 'incomplete', 'unsupported: ' + str(e)
        if opts.get('debug'):
            traceback.print_exc()
    except E.Inconclusive as e:
        status, detail = 'incomplete', 'inconclusive: ' + str(e)
    except E.StepLimit as e:
        status, detail = 'steplimit', str(e)
    except RecursionError as e:
        status, detail = 'exception', 'RecursionError'
    except MemoryError:
        status, detail = 'incomplete', 'memory'
    except Exception as e:
        msg = f'{type(e).__name__}: {e} at {where(e)}'
        if executor_limit(e):
            status, detail = 'incomplete', 'executor: ' + msg
            if opts.get('debug'):
                traceback.print_exc()
        else:
            status, detail = 'exception', msg
            if opts.get('debug'):
                traceback.print_exc()
    for pos in range(len(p.prefix), len(p.trace)):
        alts = p.trace[pos][1]
        if alts:
            base = tuple(x[0] for x in p.trace[:pos])
            for a in reversed(alts):
                stack.append(base + (a,))
    res['decisions'] += max(0, len(p.trace) - max(0, len(p.prefix) - 1))
    res['steps'] += p.steps
    if status == 'infeasible' and not p.checks:
        res['infeasible'] += 1
        res['z3'] += p.stats['z3']
        res['z3_s'] += p.stats['z3_s']
        return
    res['paths'] += 1
    # verification condition: all recorded checks
    vals = None
    try:
        if p.checks:
            res['reached'] += 1
            res['checks'] += len(p.checks)
        bad = []
        failed = None
        for cond, msg in p.checks:
            r = E.refresh(cond) if isinstance(cond, E.SymBool) else cond
            if r is True:
                res['trivial'] += 1
            elif r is False:
                failed = msg
                break
            else:
                bad.append((r, msg))
        if bad or failed:
            neg = True if failed else E.bnot(E.mk_and([b for b, _ in bad]))
            res['vcs'] += 1
            vals = p.model_values([neg])
            if vals is not None:
                m = failed
                if bad and not failed:
                    for b, msg in bad:
                        m = msg
                        if not E.eval_bool(p, p.last_model, {}, b):
                            break
                res['viol'].append({'inputs': jsonable(vals), 'msg': text_of(m or bad[0][1]), 'exact': not p.unsupported, 'kind': 'check', 'prefix': p_choices(p)})
                status = 'violation'
        if status == 'exception' and vals is None:
            vals = p.model_values()
            if vals is None:
                status = 'infeasible'
            else:
                res['viol'].append({'inputs': jsonable(vals), 'msg': detail, 'exact': not p.unsupported and detail != 'RecursionError', 'kind': 'exception', 'prefix': p_choices(p)})
        elif status == 'steplimit':
            vals = p.model_values()
            if vals is not None:
                res['incomplete'].append((f'step limit ({detail})', jsonable(vals), 'steplimit'))
        elif status == 'incomplete':
            with contextlib.suppress(E.Inconclusive):
                vals = p.model_values()
            res['incomplete'].append((detail, jsonable(vals) if vals else None, 'incomplete'))
        elif p.unsupported and status == 'ok':
            vals = p.model_values()
            if vals is not None:
                res['incomplete'].append((p.unsupported[0], jsonable(vals), 'pinned'))
        elif status == 'ok' and len(res['samples']) < opts.get('samples_per_slice', 4):
            ok, m = p.zcheck([], want_model=True)
            if not ok:
                res['incomplete'].append(('path condition unsatisfiable at the end', None, 'incomplete'))
            else:
                vals = {name: p.eval_in(m, v) for name, v in p.inputs}
                try:
                    ob = plain(E.eval_model(p, m, getattr(m, '_memo', {}), p.obs))
                except Exception as e:
                    ob = ('unavailable', str(e))
                res['samples'].append((jsonable(vals), ob))
    except E.Inconclusive as e:
        res['incomplete'].append(('inconclusive: ' + str(e), None, 'incomplete'))
    except E.Unsupported as e:
        res['incomplete'].append(('unsupported: ' + str(e), None, 'incomplete'))
    except RecursionError:
        res['incomplete'].append(('recursion in the executor', None, 'incomplete'))
    res['z3'] += p.stats['z3']
    res['z3_s'] += p.stats['z3_s']
    res['conc'] += p.stats['conc']


def p_choices(p):
    return [x[0] for x in p.trace][:400]


def jsonable(vals):
    out = {}
    for k, v in vals.items():
        if isinstance(v, fractions.Fraction):
            v = float(v)
        out[k] = v
    return out


# --------------------------------------------------------------------------- the check

class Known:
    """Committed known findings: property, label and text per line."""

    def __init__(self):
        self.items = []
        f = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(f):
            for l in open(f, encoding='utf-8'):
                l = l.rstrip('\n')
                if l.startswith('known: property='):
                    rest = l[len('known: property='):]
                    prop, label, text = rest.split(' ', 2)
                    self.items.append((prop, label, text))

    def of(self, prop):
        return [(l, t) for p, l, t in self.items if p == prop]


def run_check(prop, tier='quick', seed=1, jobs=None, only=None, debug=False, budget=None):
    T0 = time.time()
    jobs = jobs or int(os.environ.get('VERIF_JOBS', 0)) or os.cpu_count() or 4
    mod, cases = list_cases(prop, tier)
    if only:
        cases = [c for c in cases if only in c[0]]
    budget = budget or getattr(mod, 'BUDGET', {}).get(tier) or {'quick': 40, 'thorough': 600}[tier]
    gopts = dict(getattr(mod, 'OPTS', {}))
    gopts['debug'] = debug
    title = (mod.__doc__ or '').strip().split('\n')[0]
    assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    workers = []
    for i in range(jobs):
        a, b = mp.Pipe()
        pr = mp.Process(target=sym_worker, args=(b, prop, gopts), daemon=True)
        pr.start()
        b.close()
        workers.append([pr, a, None, 0])
    cpool = ConcPool(prop, min(4, jobs))
    st = []
    for name, fn, kw, bounds in cases:
        st.append({'name': name, 'fn': fn, 'kw': kw, 'bounds': bounds, 'queue': collections.deque([()]), 'running': 0, 'time': 0.0,
                   'paths': 0, 'decisions': 0, 'reached': 0, 'infeasible': 0, 'z3': 0, 'z3_s': 0.0, 'trivial': 0, 'vcs': 0,
                   'conc': 0, 'steps': 0, 'checks': 0, 'incomplete': collections.Counter(), 'incvals': [], 'samples': [], 'viol': [],
                   'unconfirmed': [], 'stopped': False, 'exhausted': False, 'code': set(), 'nsamples': 0})
    rnd = random.Random(seed)
    deadline = T0 + budget
    confirmed = []
    unconfirmed = []
    lost = 0
    stop = False

    def handle(cs, res):
        for k in ('paths', 'decisions', 'reached', 'infeasible', 'z3', 'z3_s', 'trivial', 'vcs', 'conc', 'steps', 'checks'):
            cs[k] += res[k]
        cs['time'] += res['time']
        cs['code'] |= res['code']
        for why, vals, kind in res['incomplete']:
            cs['incomplete'][why] += 1
            if vals is not None and (len(cs['incvals']) < 60 or kind == 'steplimit' and len(cs['incvals']) < 80):
                cs['incvals'].append((vals, kind, why))
        for s in res['samples']:
            cs['nsamples'] += 1
            if len(cs['samples']) < 30:
                cs['samples'].append(s)
            else:
                j = rnd.randrange(cs['nsamples'])
                if j < 30:
                    cs['samples'][j] = s
        for v in res['viol']:
            r = cpool.run_all([(0, cs['fn'], cs['kw'], v['inputs'])])[0]
            if r[0] == 'fail':
                v['real'] = r[1]
                confirmed.append((cs, v))
                cs['viol'].append(v)
                cs['stopped'] = True
            else:
                v['real'] = r[0] + ' ' + str(r[1])
                cs['unconfirmed'].append(v)
                if debug:
                    print("UNCONFIRMED", cs["name"], v, flush=True)
                if v['exact']:
                    unconfirmed.append((cs, v))
                if len(cs['unconfirmed']) >= 5:
                    cs['stopped'] = True
        if not cs['stopped']:
            # shallow prefixes first so that other workers get large subtrees
            left = sorted(res['left'], key=len)
            cs['queue'].extend(left)

    while True:
        now = time.time()
        live = [c for c in st if not c['stopped'] and c['queue']]
        busy = [w for w in workers if w[2] is not None]
        if not busy and (not live or now > deadline or stop):
            break
        if confirmed and not debug:
            stop = True
        if live and now <= deadline and not stop:
            for w in workers:
                if w[2] is None and w[1] is not None:
                    live = [c for c in st if not c['stopped'] and c['queue']]
                    if not live:
                        break
                    cs = min(live, key=lambda c: (c['time'] + 0.5 * c['running']))
                    q = cs['queue']
                    nrun = max(1, jobs // 2)
                    k = max(1, min(64, len(q) // (2 * jobs)))
                    batch = [q.popleft() for _ in range(min(k, len(q)))]
                    batch.reverse()
                    few = len(q) < 2 * jobs
                    sl = 0.15 if few else 0.8
                    cs['running'] += 1
                    copts = {k[1:]: v for k, v in cs['kw'].items() if k.startswith('_')}
                    kw = {k: v for k, v in cs['kw'].items() if not k.startswith('_')}
                    try:
                        w[1].send((cs['fn'], kw, batch, sl, copts))
                        w[2] = (cs, batch)
                        w[3] = now
                    except (BrokenPipeError, OSError):
                        cs['running'] -= 1
                        q.extendleft(batch)
                        w[1] = None
        conns = [w[1] for w in workers if w[2] is not None]
        if not conns:
            if not any(w[1] for w in workers):
                break
            continue
        ready = mpc.wait(conns, timeout=0.5)
        for c in ready:
            w = next(x for x in workers if x[1] is c)
            cs, batch = w[2]
            w[2] = None
            cs['running'] -= 1
            try:
                res = c.recv()
            except (EOFError, OSError):
                lost += 1
                cs['incomplete']['a worker died'] += len(batch)
                respawn(w, prop, gopts)
                continue
            handle(cs, res)
        for w in workers:
            if w[2] is not None and (time.time() - w[3] > gopts.get('path_seconds', 60) + 30 or time.time() > deadline + 20):
                cs, batch = w[2]
                w[0].kill()
                w[2] = None
                cs['running'] -= 1
                cs['incomplete']['a worker took too long'] += len(batch)
                respawn(w, prop, gopts)
        if (confirmed or len(unconfirmed) >= 5) and not debug:
            stop = True
    for w in workers:
        with contextlib.suppress(Exception):
            w[1].send(None)
    for w in workers:
        w[0].join(0.3)
        if w[0].is_alive():
            w[0].kill()
    # paths the executor could not decide: their own inputs, on the real code
    reqs = []
    keys = {}
    for ci, cs in enumerate(st):
        for i, (vals, kind, why) in enumerate(cs['incvals']):
            reqs.append((('inc', ci, i), cs['fn'], plainkw(cs), vals))
    mism = []
    validated = 0
    for ci, cs in enumerate(st):
        cs['validated'] = 0
        for i, (vals, ob) in enumerate(cs['samples']):
            reqs.append((('val', ci, i), cs['fn'], plainkw(cs), vals))
    if not confirmed:
        out = cpool.run_all(reqs, until=time.time() + max(20, budget))
        for key, r in out.items():
            kind, ci, i = key
            cs = st[ci]
            if kind == 'inc':
                vals, k2, why = cs['incvals'][i]
                if r[0] == 'fail':
                    v = {'inputs': vals, 'msg': r[1], 'real': r[1], 'exact': False, 'kind': k2}
                    confirmed.append((cs, v))
                    cs['viol'].append(v)
            else:
                vals, ob = cs['samples'][i]
                if r[0] == 'ok' and (isinstance(ob, tuple) and ob and ob[0] == 'unavailable' or obs_equal(ob, r[2])):
                    validated += 1
                    cs['validated'] += 1
                else:
                    mism.append((cs, vals, ob, r))
    # a failing model of a path found satisfied by the solver is a disagreement of the encoding, but a real failure all the same
    for cs, vals, ob, r in mism:
        if r[0] == 'fail':
            v = {'inputs': vals, 'msg': r[1], 'real': r[1], 'exact': False, 'kind': 'validation'}
            confirmed.append((cs, v))
    known = Known().of(prop)
    kn_lines = []
    if known and not confirmed:
        for label, text in known:
            k = mod.KNOWN[label]
            r = cpool.run_all([(0, k[0].__name__, k[1], k[2])])[0]
            if r[0] == 'fail':
                kn_lines.append(f'KNOWN-FINDING: property={prop} {text}')
    cpool.stop()
    # report
    vac = [cs['name'] for cs in st if cs['reached'] == 0 and not cs['viol'] and not cs['incomplete'] and not cs['queue']]
    exhaustive = all(not cs['queue'] and not cs['incomplete'] and not cs['stopped'] for cs in st)
    ev = evidence(prop, tier, seed, st, assumptions, validated, T0, exhaustive, confirmed, unconfirmed, mism, title, known, lost)
    os.makedirs(os.path.join(OUT or VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT or VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in kn_lines:
        print(l)
    for cs in st:
        print(f"{prop} {cs['name']}: paths {cs['paths']} reached {cs['reached']} vcs {cs['vcs']}+{cs['trivial']} z3 {cs['z3']} ({cs['z3_s']:.1f}s) "
              f"time {cs['time']:.1f}s left {len(cs['queue'])} incomplete {sum(cs['incomplete'].values())} validated {cs.get('validated', 0)}/{len(cs['samples'])}"
              + (f" unconfirmed {len(cs['unconfirmed'])}" if cs['unconfirmed'] else ''))
        for w, n in cs['incomplete'].most_common(4):
            print(f'    incomplete x{n}: {w[:200]}')
    code = 0
    if confirmed:
        seen = set()
        os.makedirs(os.path.join(OUT or VERIF, 'replays'), exist_ok=True)
        for i, (cs, v) in enumerate(confirmed[:5]):
            path = os.path.join(OUT or VERIF, 'replays', f'{prop}-{i}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'case': cs['name'], 'fn': cs['fn'], 'kwargs': plainkw(cs), 'inputs': v['inputs'], 'solver_message': v['msg'], 'real_code': v['real']}, f, indent=1, default=str)
            print(f"  {cs['name']}: {v['real']}  [solver: {v['msg']}] inputs {short(v['inputs'])}")
            print(f'VIOLATION property={prop} replay={path}')
        code = 1
    else:
        for cs, v in unconfirmed[:5]:
            print(f"UNCONFIRMED {cs['name']}: {v['msg']} inputs {v['inputs']} real: {v['real']}")
        for cs, vals, ob, r in mism[:5]:
            print(f"MISMATCH {cs['name']}: inputs {vals}\n   encoding {short(ob)}\n   real {r[0]} {r[1]} {short(r[2])}")
            code = 2
        if vac:
            print('VACUOUS ' + ', '.join(vac))
        if not any(cs['reached'] for cs in st):
            code = 2 # nothing at all was decided
    print(f'{prop}: exit {code}, {time.time() - T0:.1f} s')
    return code


def plainkw(cs):
    return {k: v for k, v in cs['kw'].items() if not k.startswith('_')}


def respawn(w, prop, gopts):
    with contextlib.suppress(Exception):
        w[1].close()
    a, b = mp.Pipe()
    pr = mp.Process(target=sym_worker, args=(b, prop, gopts), daemon=True)
    pr.start()
    b.close()
    w[0], w[1] = pr, a


def evidence(prop, tier, seed, st, assumptions, validated, T0, exhaustive, confirmed, unconfirmed, mism, title, known, lost):
    code = set()
    for cs in st:
        code |= cs['code']
    rp = ROOTS['pdfsyntax'] + os.sep
    fns = sorted({f'{os.path.relpath(f, ROOTS["pdfsyntax"])}:{q}' for f, q, l in code if f.startswith(rp)})
    samples = []
    for cs in st:
        for vals, ob in cs['samples'][:2]:
            samples.append({'case': cs['name'], 'inputs': vals, 'observed': short(ob)})
    return {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(cs['paths'] for cs in st),
            'transitions': sum(cs['decisions'] for cs in st),
            'traces_validated_against_impl': validated,
            'samples': samples[:20],
            'exhaustive': exhaustive,
            'explanation': 'states = symbolic paths of the real code executed to their end; transitions = branch decisions taken; '
                           'every path carries constraints over all inputs that follow it and its assertions are decided for all of them',
            'functions_encoded': fns,
            'paths_reaching_an_assertion': sum(cs['reached'] for cs in st),
            'assertions': sum(cs['checks'] for cs in st),
            'assertions_decided_by_domain_reasoning': sum(cs['trivial'] for cs in st),
            'verification_conditions_sent_to_z3': sum(cs['vcs'] for cs in st),
            'solver_queries': sum(cs['z3'] for cs in st),
            'solver_seconds': round(sum(cs['z3_s'] for cs in st), 2),
            'encoding_mismatches': len(mism),
            'unconfirmed_counterexamples': len(unconfirmed),
            'workers_lost': lost,
            'cases': [{'case': cs['name'], 'bounds': cs['bounds'], 'paths': cs['paths'], 'reached': cs['reached'],
                       'exhaustive': not cs['queue'] and not cs['incomplete'] and not cs['stopped'],
                       'unexplored_prefixes': len(cs['queue']), 'incomplete': dict(cs['incomplete'].most_common(5)),
                       'queries': cs['z3'], 'solver_s': round(cs['z3_s'], 2)} for cs in st],
        },
        'assumptions': assumptions + [
            'Python semantics as encoded by /verif/symex (integers exact, floats as exact rationals), checked on this run by replaying models on the real code',
            'nothing is claimed outside the bounds listed per case'],
        'wall_s': round(time.time() - T0, 2),
        'violations': len(confirmed),
    }


def replay(prop, path):
    d = json.load(open(path))
    install(False)
    r = conc_run(d['property'], d['fn'], d['kwargs'], d['inputs'], 30)
    print(r[0], r[1])
    for k, v in d['inputs'].items():
        print('  ', k, '=', v)
    if r[0] == 'fail':
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0
