"""A persistent group of MPI ranks (mpiexec -n N) that run jobs in lockstep.

Each rank connects back over a unix socket; a job is (function name, args) from pbt.mpijobs and is sent
to every rank; each answers with its result or its exception."""
import os, sys, time, socket, struct, pickle, subprocess, signal
from pbt import core

MPIEXEC = '/usr/bin/mpiexec.openmpi'


def _recvall(s, n):
    b = b''
    while len(b) < n:
        c = s.recv(n - len(b))
        if not c:
            raise ConnectionError('rank closed its connection')
        b += c
    return b


def send(s, obj):
    b = pickle.dumps(obj, 5)             # (older protocols lose the byte order of arrays)
    s.sendall(struct.pack('!q', len(b)) + b)


def recv(s):
    n = struct.unpack('!q', _recvall(s, 8))[0]
    return pickle.loads(_recvall(s, n))


class RankError(Exception):
    pass


class Pool:
    def __init__(self, n, timeout=60.0):
        self.n, self.timeout = n, timeout
        self.proc = None
        self.k = 0

    def start(self):
        self.k += 1
        self.dir = os.path.join(core.SCRATCH, f'mpi{os.getpid()}_{self.n}_{self.k}')
        os.makedirs(self.dir)
        addr = os.path.join(self.dir, 's')
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(addr); srv.listen(self.n); srv.settimeout(120)
        env = dict(os.environ, TMPDIR=self.dir, VERIF_SCRATCH=self.dir)
        self.log = open(os.path.join(self.dir, 'log'), 'wb')
        self.proc = subprocess.Popen(
            [MPIEXEC, '-n', str(self.n), sys.executable, '-m', 'pbt.mpiworker', addr],
            stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, cwd=self.dir, env=env,
            start_new_session=True)
        self.socks = [None] * self.n
        try:
            for _ in range(self.n):
                c, _a = srv.accept()
                c.settimeout(120)
                self.socks[recv(c)] = c
        except Exception as e:
            self.kill()
            raise core.Infra(f'MPI ranks did not come up: {e!r}: {self.tail()}')
        finally:
            srv.close()
        # the ranks can talk to each other
        r = self._run('ping', {}, 120)
        if any(x[0] != 'ok' for x in r):
            raise core.Infra(f'MPI ping failed: {r}')

    def tail(self):
        try:
            return open(os.path.join(self.dir, 'log'), 'rb').read()[-1500:].decode('utf8', 'replace')
        except OSError:
            return ''

    def kill(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
        for s in getattr(self, 'socks', []):
            if s is not None:
                s.close()
        self.proc = None

    def close(self):
        if self.proc is None:
            return
        for s in self.socks:
            try:
                send(s, None)
            except OSError:
                pass
        try:
            self.proc.wait(5)
        except subprocess.TimeoutExpired:
            pass
        self.kill()

    def _run(self, fn, args, timeout):
        import select
        for s in self.socks:
            send(s, (fn, args))
        res = [None] * self.n
        left = {s.fileno(): (i, s) for i, s in enumerate(self.socks)}
        end = time.time() + timeout
        while left:
            to = end - time.time()
            if to <= 0:
                break
            rd, _, _ = select.select(list(left), [], [], to)
            for fd in rd:
                i, s = left.pop(fd)
                try:
                    res[i] = recv(s)
                except (ConnectionError, OSError) as e:
                    res[i] = ('died', repr(e), True)
                if res[i][0] != 'ok':
                    # the others may now wait for this rank for ever
                    end = min(end, time.time() + 5)
        return [('hang', 'no answer', True) if r is None else r for r in res]

    def run(self, fn, args, timeout=None):
        """list of the per-rank results; raises Violation when the package failed on a rank."""
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        try:
            res = self._run(fn, args, timeout or self.timeout)
        except BaseException:
            self.kill()
            raise
        bad = [(i, r) for i, r in enumerate(res) if r[0] != 'ok']
        if not bad:
            return [r[1] for r in res]
        if any(r[0] in ('hang', 'died') for _, r in bad) or len(bad) < self.n:
            t = self.tail()
            self.kill()
        else:
            t = ''
        exc = [(i, r) for i, r in bad if r[0] == 'exc']
        if exc:
            i, r = exc[0]
            if r[2]:
                raise core.Violation(f'rank {i} of {self.n} failed: {r[1]}')
            raise core.Infra(f'rank {i} of {self.n}, harness: {r[1]}')
        if any(r[0] == 'died' for _, r in bad):
            raise core.Violation(f'a rank of {self.n} died during {fn}: {t}')
        raise core.Violation(f'{fn} on {self.n} ranks did not finish within {timeout or self.timeout} s '
                             f'on ranks {[i for i, _ in bad]}')
