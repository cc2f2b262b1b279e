"""Several real processes working on the same files under a controlled scheduler, with dynamic partial-order reduction.

Every actor is a forked process running the real code.  It stops before each operation on shared files (opening, buffered
writing, closing of HDF5 files, directory operations, looking whether something exists, ...) and waits until the scheduler
lets it go on.  `Explorer` enumerates one schedule per equivalence class of interleavings (two operations commute unless
they touch the same path and one of them changes it), optionally only those with a bounded number of preemptions."""
import builtins, io, os, pickle, select, shutil, signal, struct, sys, traceback

BUFFER = 8192


CONTENT = {'c': 'CE', 'C': 'cCE', 'e': 'E', 'E': 'ceCEl', 'l': 'E'}


def effect(op):
    """What an operation would do now: {path: e (looks whether it is there), c (reads), C (changes the content), E (makes or removes it), l (lists)}."""
    kind, pm = op
    out = []
    for p, m in pm:
        there = os.path.lexists(p)
        if m == 'w':            # writes
            m = 'C' if there else 'E'
        elif m == 'a':          # opens without changing an existing one
            m = 'e' if there else 'E'
        elif m == 'r':
            m = 'c' if there else 'e'
        out.append((p, m))
    return out


def conflict(a, b):
    for pa, ma in a:
        for pb, mb in b:
            if pa == pb:
                if mb in CONTENT[ma]:
                    return True
            elif ma == 'E' and pb.startswith(pa + os.sep) or mb == 'E' and pa.startswith(pb + os.sep):
                return True
            elif ma == 'l' and mb == 'E' and pb.startswith(pa + os.sep) or mb == 'l' and ma == 'E' and pa.startswith(pb + os.sep):
                return True
    return False


class Gate:
    """In an actor: stops before operations on files below `roots`."""

    def __init__(self, roots, up, down, h5py):
        self.roots, self.up, self.down, self.h5py = [os.path.abspath(r) for r in roots], up, down, h5py
        self.inside = 0

    def send(self, msg):
        b = pickle.dumps(msg)
        os.write(self.up, struct.pack('I', len(b)) + b)

    def shared(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p if any(p == r or p.startswith(r + os.sep) for r in self.roots) else None

    def stop(self, what, *pm):
        """pm: (path, mode) pairs; mode as in `effect`."""
        if self.inside:
            return False
        pm = [(self.shared(p), m) for p, m in pm]
        pm = tuple((p, m) for p, m in pm if p)
        if not pm:
            return False
        self.send(('op', (what, pm)))
        os.read(self.down, 1)
        return True

    def step(self, n):
        self.send(('op', ('call', ())))
        os.read(self.down, 1)

    def wrap(self, owner, name, *modes):
        orig = getattr(owner, name)

        def w(*a, **k):
            if self.stop(name, *zip(a, modes)):
                self.inside += 1
                try:
                    return orig(*a, **k)
                finally:
                    self.inside -= 1
            return orig(*a, **k)
        setattr(owner, name, w)

    def open(self, orig):
        def w(file, mode='r', *a, **k):
            wr = any(c in mode for c in 'wax+')
            if isinstance(file, int) or not self.stop('open', (file, 'a' if 'a' in mode or '+' in mode and 'w' not in mode else 'w' if wr else 'r')):
                return orig(file, mode, *a, **k)
            f = orig(file, mode, *a, **k)
            return Buffered(self, f, file) if wr else f
        return w

    def install(self):
        for n in ('remove', 'unlink', 'rmdir'):
            self.wrap(os, n, 'E')
        self.wrap(os, 'truncate', 'w')
        self.wrap(os, 'mkdir', 'a')
        for n in ('rename', 'replace'):
            self.wrap(os, n, 'E', 'w')
        for n in ('link', 'symlink'):
            self.wrap(os, n, 'r', 'w')
        for n in ('stat', 'lstat'):
            self.wrap(os, n, 'r')
        self.wrap(os, 'access', 'e')
        for n in ('exists', 'lexists', 'isfile', 'isdir', 'islink'):
            self.wrap(os.path, n, 'e')
        self.wrap(os.path, 'getsize', 'r')
        for n in ('listdir', 'scandir'):
            self.wrap(os, n, 'l')
        self.wrap(shutil, 'rmtree', 'E')
        for n in ('copy', 'copy2', 'copyfile'):
            self.wrap(shutil, n, 'r', 'w')
        self.wrap(shutil, 'move', 'E', 'w')
        builtins.open = io.open = self.open(builtins.open)
        gate, orig = self, os.open

        def osopen(p, flags, *a, **k):
            gate.stop('osopen', (p, 'w' if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else 'r'))
            return orig(p, flags, *a, **k)
        os.open = osopen
        F = self.h5py.File
        init, close = F.__init__, F.close

        def finit(f, name, mode='r', *a, **k):
            gate.stop('h5open', (name, 'r' if mode == 'r' else 'w'))
            return init(f, name, mode, *a, **k)

        def fclose(f):
            if f.id:
                gate.stop('h5close', (f.filename, 'r' if f.mode == 'r' else 'w'))
            return close(f)
        F.__init__, F.close = finit, fclose


class Buffered:
    """A file open for writing: what is written reaches it when the buffer is full, or at the end."""

    def __init__(self, gate, f, path):
        self.__dict__.update(gate=gate, f=f, path=path, pending=0)

    def write(self, data):
        if self.pending + len(data) > BUFFER:
            self.sync()
            self.gate.stop('write', (self.path, 'w'))
            n = self.f.write(data)
            self.f.flush()
            return n
        self.__dict__['pending'] += len(data)
        return self.f.write(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def sync(self):
        if self.pending:
            self.gate.stop('write', (self.path, 'w'))
            self.__dict__['pending'] = 0
        self.f.flush()

    flush = sync

    def seek(self, *a):
        self.sync()
        return self.f.seek(*a)

    def close(self):
        if not self.f.closed:
            self.sync()
            self.f.close()

    def __getattr__(self, k):
        return getattr(self.f, k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.f)


class Actor:
    def __init__(self, steps, roots, h5py, prepare):
        self.result, self.pending, self.done = [], None, False
        ur, uw = os.pipe()
        dr, dw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                signal.alarm(0)
                os.close(ur), os.close(dw)
                sys.stdout = sys.stderr = open(os.devnull, 'w')
                prepare()
                g = Gate(roots, uw, dr, h5py)
                g.install()
                env = {}
                for n, s in enumerate(steps):
                    g.step(n)
                    try:
                        r = ('ok', s(env))
                    except (Exception, KeyboardInterrupt) as e:
                        r = ('refused', type(e).__name__, str(e)[:200], traceback.format_exc()[-500:], isinstance(e, OSError) and ('lock' in str(e) or 'open' in str(e)))
                        g.send(('res', r))
                        break
                    g.send(('res', r))
                code = 0
            finally:
                os._exit(code)
        os.close(uw), os.close(dr)
        self.up, self.down = ur, dw
        self.next()

    def read(self, n):
        b = b''
        while len(b) < n:
            c = os.read(self.up, n - len(b))
            if not c:
                return None
            b += c
        return b

    def next(self):
        """Wait until the actor stops."""
        while True:
            h = self.read(4)
            if h is None:
                self.finish()
                return
            m = pickle.loads(self.read(struct.unpack('I', h)[0]))
            if m[0] == 'res':
                self.result.append(m[1])
            else:
                self.pending = m[1]
                return

    def go(self):
        os.write(self.down, b'g')
        self.next()

    def finish(self):
        if not self.done:
            self.done, self.pending = True, None
            os.close(self.up), os.close(self.down)
            _, st = os.waitpid(self.pid, 0)
            self.status = st

    def kill(self):
        if not self.done:
            os.kill(self.pid, signal.SIGKILL)
            self.finish()


class Node:
    def __init__(self, effects, sleep):
        self.effects, self.sleep, self.done, self.back, self.choice = effects, sleep, set(), set(), None


class Explorer:
    """restore(): puts the files into the initial state;  actors: lists of steps (functions of a dictionary)."""

    def __init__(self, restore, actors, roots, h5py, prepare=lambda: None, limit=400):
        self.restore, self.actors, self.roots, self.h5py, self.prepare, self.limit = restore, actors, roots, h5py, prepare, limit
        self.ops = 0

    def start(self):
        self.restore()
        out = []
        for s in self.actors:
            out.append(Actor(s, self.roots, self.h5py, self.prepare))
        return out

    def serial(self, order, drop=()):
        """Steps one after another; order: sequence of actor numbers; steps in drop: (actor, number) are left out."""
        self.restore()
        steps = [[(lambda env: None) if (i, n) in drop else s for n, s in enumerate(a)] for i, a in enumerate(self.actors)]
        act = [Actor(s, self.roots, self.h5py, self.prepare) for s in steps]
        try:
            for i in order:
                a = act[i]
                if a.done:
                    continue
                a.go()
                while not a.done and a.pending[0] != 'call':
                    a.go()
            return [a.result for a in act]
        finally:
            for a in act:
                a.kill()

    def all(self):
        """Yields (results of the actors, schedule) once per class of interleavings."""
        nodes = []
        while True:
            act = self.start()
            trace = []          # (actor, op)
            blocked = False
            try:
                d = 0
                while not all(a.done for a in act):
                    if d < len(nodes):
                        node = nodes[d]
                    else:
                        sleep = set()
                        if nodes:
                            last = nodes[-1]
                            sleep = {q for q in last.sleep if not conflict(last.effects[q], last.effects[last.choice])}
                        node = Node({i: effect(a.pending) for i, a in enumerate(act) if not a.done}, sleep)
                        # go on with the same actor where possible
                        prefer = ([trace[-1][0]] if trace else []) + sorted(node.effects)
                        c = [i for i in prefer if i in node.effects and i not in sleep]
                        if not c:
                            blocked = True
                            break
                        node.choice = c[0]
                        node.back.add(c[0])
                        nodes.append(node)
                    i = node.choice
                    trace.append((i, act[i].pending, effect(act[i].pending)))
                    act[i].go()
                    self.ops += 1
                    d += 1
                    if d > self.limit:
                        raise RuntimeError('endless schedule')
                if not blocked:
                    yield [a.result for a in act], trace
            finally:
                for a in act:
                    a.kill()
            # races
            clocks, lastof = [], {}
            for j, (p, _, op) in enumerate(trace):
                before = set()
                if p in lastof:
                    before = clocks[lastof[p]] | {lastof[p]}
                hb = set(before)
                for i in range(j - 1, -1, -1):
                    q, _, o = trace[i]
                    if i in hb:
                        continue
                    if q != p and conflict(o, op):
                        # a race: p's step might come before i
                        nodes[i].back.add(p)
                        hb |= clocks[i] | {i}
                clocks.append(hb)
                lastof[p] = j
            while nodes:
                n = nodes[-1]
                n.done.add(n.choice)
                n.sleep.add(n.choice)
                c = sorted(n.back - n.done - n.sleep)
                if c:
                    n.choice = c[0]
                    break
                nodes.pop()
            else:
                return

    def bounded(self, k):
        """Yields (results, schedule) for every schedule with up to k preemptions (before operations on files that are opened as a whole)."""
        todo = [([], 0)]
        while todo:
            prefix, used = todo.pop()
            act = self.start()
            trace, more = [], []
            try:
                while not all(a.done for a in act):
                    d = len(trace)
                    free = [i for i, a in enumerate(act) if not a.done]
                    last = trace[-1][0] if trace else None
                    if d < len(prefix):
                        i = prefix[d]
                    else:
                        i = last if last in free else free[0]
                        path = [t[0] for t in trace]
                        if last in free:
                            if used < k and act[last].pending[0].startswith('h5'):
                                more += [(path + [j], used + 1) for j in free if j != last]
                        else:
                            more += [(path + [j], used) for j in free[1:]]
                    trace.append((i, act[i].pending, ()))
                    act[i].go()
                    self.ops += 1
                    if len(trace) > self.limit:
                        raise RuntimeError('endless schedule')
                yield [a.result for a in act], trace
            finally:
                for a in act:
                    a.kill()
            todo += reversed(more)
