"""Bounded exhaustive exploration of the real simim code against reference models.

A property module defines a class derived from `Check`:
  cases(tier)      -> yields JSON-able cases in simple-to-complex order (plain exhaustive
                      enumeration), and/or
  explore(tier, x) -> drives a breadth-first search with `x.bfs(...)`
  run(case, ctx)   -> executes one case (one history) on the real code and on the reference
                      model in lockstep; reports disagreements with ctx.fail

Everything that a case touches on disk lives in a scratch directory that is removed afterwards;
the code under test is a copy of /repo/simim made at the start of the run, so nothing in /repo
is ever written.
"""
import contextlib, hashlib, importlib, io, json, multiprocessing as mp, os, resource, shutil, signal, sys
import tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class Ctx:
    """Collects what one case covered and what it found."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.states = set()
        self.transitions = 0
        self.nontrivial = 0
        self.evals = 1
        self.fails = []
        self.end = None          # canonical end state (used by bfs)
        self.enabled = None      # optional list of next ops (used by bfs)
        self.note = None

    def step(self, n=1):
        self.transitions += int(n)

    def state(self, obj):
        d = digest(obj)
        self.states.add(d)
        return d

    def interesting(self, n=1):
        self.nontrivial += n

    def fail(self, key, msg):
        if len(self.fails) < 3:
            self.fails.append((key, str(msg)[:2000]))

    def expect(self, cond, key, msg=''):
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)


class Check:
    id = 'C00'
    level = 'model_checking'
    technique = ''
    rule = ''
    assumptions = ()
    needs_root = True          # give the package copy a data root
    parallel = True
    chunk = 4
    case_limit = 240           # seconds; a history that does not finish is a violation

    def setup(self):
        """Called once after simim is importable, before workers fork."""

    def cases(self, tier):
        return ()

    def explore(self, tier, x):
        x.all(self.cases(tier))

    def run(self, case, ctx):
        raise NotImplementedError


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


_CHECK = None
_SCRATCH = None
_COUNT = 0
_INIT_ERR = None
PKG = None          # this process' private copy of the package
ROOT = None         # this process' private data root


def _init_worker(base):
    global _SCRATCH, _INIT_ERR
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        _SCRATCH = os.path.join(base, 'w{}'.format(os.getpid()))
        os.mkdir(_SCRATCH)
        with contextlib.redirect_stdout(_Null()), contextlib.redirect_stderr(_Null()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            prepare(_CHECK, _SCRATCH)
            _CHECK.setup()
    except BaseException:
        _INIT_ERR = traceback.format_exc()[-3000:]


def fresh_dir(ctx_scratch, tag='w'):
    global _COUNT
    _COUNT += 1
    p = os.path.join(ctx_scratch, '{}{}_{}'.format(tag, os.getpid(), _COUNT))
    os.mkdir(p)
    return p


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CaseTimeout('the case did not finish in time')


def _exec(case):
    ctx = Ctx(_SCRATCH)
    if _INIT_ERR is not None:
        ctx.fail('setup', 'the package or the harness could not be set up:\n' + _INIT_ERR)
        return case, ctx.states, 0, (0, 1), ctx.fails, None, None, None
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(_CHECK.case_limit)
        with contextlib.redirect_stdout(_Null()), contextlib.redirect_stderr(_Null()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _CHECK.run(case, ctx)
    except Violation as v:
        ctx.fail(v.key, str(v))
    except KeyboardInterrupt:
        raise
    except BaseException as e:      # an unexpected exception (SystemExit included) is a disagreement
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if os.sep + 'simim' + os.sep in f.filename]
        loc = '{}:{}'.format(os.path.basename(where[-1].filename), where[-1].name) if where else 'harness'
        ctx.fail('exception:{}:{}'.format(type(e).__name__, loc),
                 'unexpected {}: {}\n{}'.format(type(e).__name__, e, traceback.format_exc()[-1500:]))
    finally:
        signal.alarm(0)
    return case, ctx.states, ctx.transitions, (ctx.nontrivial, ctx.evals), ctx.fails, ctx.end, ctx.enabled, ctx.note


def _exec_chunk(cases):
    out = []
    for c in cases:
        out.append(_exec(c))
        if any(k.startswith('exception:CaseTimeout') for k, m in out[-1][4]):
            break
    return out


class Explorer:
    def __init__(self, check, tier, known, budget, base):
        self.check, self.tier, self.known = check, tier, known
        self.states = set()
        self.transitions = self.traces = self.nontrivial = self.evals = 0
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.notes = {}
        self.info = {}
        self.deadline = time.time() + budget
        self.capped = False
        n = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 1))
        if check.parallel and n > 1:
            self.pool = mp.get_context('fork').Pool(n, initializer=_init_worker, initargs=(base,))
        else:
            self.pool = None
            _init_worker(base)

    def _iter(self, cases):
        if self.pool is None:
            for c in cases:
                yield _exec(c)
            return
        def chunks():
            buf = []
            for c in cases:
                buf.append(c)
                if len(buf) >= self.check.chunk:
                    yield buf
                    buf = []
            if buf:
                yield buf
        it = self.pool.imap(_exec_chunk, chunks())
        while True:
            try:
                res = it.next(timeout=self.check.case_limit + 100)
            except StopIteration:
                return
            except mp.TimeoutError:      # a worker died (out of memory, crash in native code)
                yield None, set(), 0, (0, 1), [('lost', 'a worker process died or did not answer while running a case')], None, None, None
                return
            for r in res:
                yield r

    def _take(self, r):
        case, states, trans, nontriv, fails, end, enabled, note = r
        self.states |= states
        self.transitions += trans
        self.traces += 1
        self.nontrivial += nontriv[0]
        self.evals += nontriv[1]
        if note is not None:
            self.notes[note] = self.notes.get(note, 0) + 1
        if len(self.samples) < 2 or (self.traces in (17, 257, 4097)):
            self.samples.append(case)
        for key, msg in fails:
            if key in self.known:
                self.known_hit[key] = self.known_hit.get(key, 0) + 1
            elif len(self.violations) < 5:
                self.violations.append({'case': case, 'key': key, 'msg': msg})

    def all(self, cases):
        """Run every case (exhaustive enumeration)."""
        for r in self._iter(cases):
            self._take(r)
            if self.violations or self._late():
                break

    def _late(self):
        if time.time() > self.deadline:
            self.capped = True
            return True
        return False

    def bfs(self, make_case, alphabet, depth, tag='bfs', start=((),)):
        """Level-synchronous BFS.  A state is the history reaching it; histories whose canonical
        end state (ctx.end) was seen before are not extended."""
        seen = set()
        frontier = [list(h) for h in start]
        first = True
        for level in range(depth + 1):
            if first:
                todo = frontier
            else:
                todo = []
                for h, ops in frontier:
                    for op in ops:
                        todo.append(h + [op])
            nxt = []
            for r, h in zip(self._iter([make_case(h) for h in todo]), todo):
                self._take(r)
                end, enabled = r[5], r[6]
                if end is not None and end not in seen:
                    seen.add(end)
                    nxt.append((h, alphabet if enabled is None else enabled))
                if self.violations or self._late():
                    break
            first = False
            frontier = nxt
            self.info[tag + '_depth'] = level
            if self.violations or self.capped or not frontier:
                break
        self.info[tag + '_states'] = len(seen)
        self.info[tag + '_frontier_left'] = len(frontier)


def load_known(pid):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: '):
                parts = line[7:].split(' ', 2)
                if parts[0] == 'property=' + pid and parts[1].startswith('key='):
                    known[parts[1][4:]] = parts[2] if len(parts) > 2 else ''
    return known


def prepare(check, scratch):
    """Copy the package under test and make it importable."""
    global PKG, ROOT
    PKG = pkg = os.path.join(scratch, 'pkg')
    os.mkdir(pkg)
    shutil.copytree(os.path.join(REPO, 'simim'), os.path.join(pkg, 'simim'),
                    ignore=shutil.ignore_patterns('rootpath.txt', '__pycache__'))
    ROOT = root = os.path.join(scratch, 'root')
    os.mkdir(root)
    if check.needs_root:
        with open(os.path.join(pkg, 'simim', 'resources', 'rootpath.txt'), 'w') as f:
            f.write(root)
        res = os.path.join(root, 'simim_resources')
        for d in ('', '.paths', 'simulations', 'lightcones', 'galprops'):
            os.mkdir(os.path.join(res, d))
    os.environ['MPLBACKEND'] = 'Agg'
    home = os.path.join(scratch, 'home')
    os.mkdir(home)
    os.environ['HOME'] = home
    os.environ['XDG_CACHE_HOME'] = os.environ['XDG_CONFIG_HOME'] = home
    os.environ['MPLCONFIGDIR'] = home
    sys.dont_write_bytecode = True
    sys.path.insert(0, pkg)
    # a setuptools editable finder could shadow the copy: drop it
    sys.meta_path[:] = [m for m in sys.meta_path if 'editable' not in getattr(m, '__module__', '')
                        and 'editable' not in getattr(m, '__name__', '')
                        and 'Editable' not in repr(m)]
    os.chdir(scratch)
    with contextlib.redirect_stdout(_Null()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import simim
    assert os.path.realpath(simim.__file__).startswith(os.path.realpath(pkg)), simim.__file__


def main(argv):
    global _CHECK
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = rest.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    t0 = time.time()
    replay = os.path.abspath(replay) if replay else None
    mod = importlib.import_module('mc.' + pid.lower())
    check = mod.CHECK
    _CHECK = check
    base = tempfile.mkdtemp(prefix='verif_{}_'.format(pid))
    owner = os.getpid()
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rc = 0
    try:
        known = load_known(pid)
        try:
            x = None
            if replay:
                _init_worker(base)
                case = json.load(open(replay))['case']
                r = _exec(case)
                for key, msg in r[4]:
                    print('VIOLATION property={} replay={}'.format(pid, replay))
                    print('key={}\n{}'.format(key, msg))
                print('replay:', 'violates' if r[4] else 'holds')
                return 1 if r[4] else 0
            budget = float(os.environ.get('VERIF_BUDGET', '720' if tier == 'quick' else '7200'))
            x = Explorer(check, tier, known, budget, base)
            check.explore(tier, x)
            violations = x.violations
        except Exception as e:     # broken import / setup of the code under test
            violations = [{'case': None, 'key': 'setup', 'msg': traceback.format_exc()[-3000:]}]
        if x is not None and x.pool is not None:
            x.pool.terminate()
        for key, desc in known.items():
            if x is not None and key in x.known_hit:
                print('KNOWN-FINDING: property={} {} [{}]'.format(pid, desc, key))
        cov = {}
        if x is not None:
            if check.level == 'model_checking':
                cov = {'states': len(x.states), 'transitions': x.transitions,
                       'traces_validated_against_impl': x.traces}
            else:
                cov = {'evaluations': x.evals, 'states': len(x.states), 'transitions': x.transitions}
            cov.update({'distinct_nontrivial': min(x.nontrivial, x.evals), 'rule': check.rule, 'samples': x.samples[:5],
                   'exhaustive': not x.capped and not violations})
            cov.update(x.info)
            if x.notes:
                cov['outcomes'] = {str(k): v for k, v in x.notes.items()}
            if x.capped:
                cov['cap'] = 'time budget hit; everything counted here was fully executed'
        else:
            cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': cov,
              'assumptions': list(check.assumptions), 'wall_s': round(time.time() - t0, 2),
              'violations': len(violations)}
        with open(os.path.join(evdir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for i, v in enumerate(violations):
            path = os.path.join(evdir, 'replay_{}_{}.json'.format(pid, i))
            with open(path, 'w') as f:
                json.dump(dict(v, property=pid, how='/verif/check {} --replay {}'.format(pid, path)), f, indent=1, default=str)
            print('VIOLATION property={} replay={}'.format(pid, path))
            print('  key={}'.format(v['key']))
            print('  case={}'.format(json.dumps(v['case'], default=str)[:600]))
            print('  ' + v['msg'].replace('\n', '\n  '))
            rc = 1
        print('{} {} {}: states={} transitions={} traces={} wall={:.1f}s{}'.format(
            pid, tier, 'VIOLATED' if rc else 'held', cov.get('states'), cov.get('transitions'),
            cov.get('traces_validated_against_impl', cov.get('evaluations')), time.time() - t0, ' CAPPED' if cov.get('cap') else ''))
    finally:
        if os.getpid() == owner:
            os.chdir('/')
            shutil.rmtree(base, ignore_errors=True)
    return rc
