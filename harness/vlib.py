"""Common machinery of the checks: scratch directories, TLC runs, trace verdicts, evidence."""
import atexit
import fcntl
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
REPO = os.environ.get('KPEX_VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
PB_DIR = os.path.join(REPO, 'klayout_pex_protobuf')
NPROC = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


def gen_repo():
    """Regenerates protobuf modules and *_tech.pb.json from /repo's working tree."""
    with open('/tmp/.kpex_verif_gen.lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = subprocess.run(['bash', '/opt/vp/gen.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise MachineryError('gen.sh failed:\n' + r.stdout[-3000:])


def raised_by_code(tb):
    """Whether the code under test raised the exception (rather than the harness, or a library the harness called)."""
    ours = os.path.join(VERIF, 'harness') + os.sep
    pkg = os.path.join(os.path.realpath(os.environ.get('KPEX_VERIF_PYTHONPATH') or REPO), 'klayout_pex') + os.sep
    who = None
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(ours):
            who = 'harness'
        elif fn.startswith(pkg):
            who = 'code'
        tb = tb.tb_next
    return who == 'code'


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random(f'{pid}/{self.seed}')
        self.scratch = tempfile.mkdtemp(prefix=f'kpexv_{pid}_')
        pid_main = os.getpid()
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True) if os.getpid() == pid_main else None)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []      # (clause, description, payload)
        self.known = []
        self.cov = {}
        self.assumptions = []
        self.known_findings = load_known(pid)
        self._nscr = 0

    # ---- scratch -------------------------------------------------------
    def scr(self, name=''):
        self._nscr += 1
        p = os.path.join(self.scratch, f'{self._nscr:04d}_{name}')
        os.makedirs(p)
        return p

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg_text, workers=NPROC, timeout=800, extra_files=(), args=(), expect_ok=True, count=True):
        """Runs TLC on spec/<module>.tla with the given cfg text. Returns dict(ok, states, distinct, out, dir)."""
        d = self.scr(module)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        for src in extra_files:
            shutil.copy(src, d)
        with open(os.path.join(d, f'{module}.cfg'), 'w') as f:
            f.write(cfg_text)
        env = dict(os.environ)
        env['JAVA_TOOL_OPTIONS'] = f'-Djava.io.tmpdir={d} -Xss64m'
        cmd = ['tlc', '-workers', str(workers), '-config', f'{module}.cfg', '-metadir', os.path.join(d, 'meta'),
               '-noGenerateSpecTE', *args, f'{module}.tla']
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            raise MachineryError(f'TLC timed out on {module}')
        out = r.stdout
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if count:
            self.states += dist
            self.transitions += gen
        ok = r.returncode == 0 and 'Model checking completed. No error has been found' in out or \
            ('-simulate' in args and r.returncode == 0)
        if expect_ok and not ok:
            raise MachineryError(f'TLC failed on {module} (rc={r.returncode}):\n{out[max(0, out.find(chr(10) + "Error")):][:3000]}')
        return dict(ok=ok, states=dist, generated=gen, out=out, dir=d, rc=r.returncode)

    def model(self, module, cfg_text, **kw):
        """Exhaustive check of the specification itself; a failure is an error of the machinery (the spec is wrong)."""
        r = self.tlc(module, cfg_text, **kw)
        self.cov.setdefault('models', []).append(
            {'module': module, 'distinct_states': r['states'], 'states_generated': r['generated']})
        return r

    def validate(self, module, records, shards=None, cfg_extra='', what='record', describe=None, timeout=800,
                 count_traces=True, key=None):
        """Trace validation: TLC evaluates spec/<module>.tla on the ndjson records.

        The module reads 'trace.ndjson' and writes 'verdict.json': a sequence of [index, clause] pairs.
        Every failing clause becomes a violation of this check."""
        if not records:
            raise MachineryError(f'no records for {module}')
        shards = shards or min(NPROC, max(1, len(records) // 40))
        dirs = []
        procs = []
        for s in range(shards):
            part = [(i, r) for i, r in enumerate(records) if i % shards == s]
            d = self.scr(f'{module}_t{s}')
            for f in os.listdir(SPEC):
                if f.endswith('.tla'):
                    shutil.copy(os.path.join(SPEC, f), d)
            with open(os.path.join(d, 'trace.ndjson'), 'w') as f:
                for _, r in part:
                    f.write(json.dumps(r) + '\n')
            with open(os.path.join(d, f'{module}.cfg'), 'w') as f:
                f.write('SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n' + cfg_extra)
            env = dict(os.environ)
            env['JAVA_TOOL_OPTIONS'] = f'-Djava.io.tmpdir={d} -Xss64m -Xmx3g'
            outf = open(os.path.join(d, 'out.txt'), 'w')
            p = subprocess.Popen(['tlc', '-workers', '1', '-config', f'{module}.cfg', '-metadir', os.path.join(d, 'meta'),
                                  '-noGenerateSpecTE', f'{module}.tla'], cwd=d, stdout=outf,
                                 stderr=subprocess.STDOUT, env=env)
            procs.append((p, d, part))
        nbad = 0
        t_end = time.time() + timeout
        for p, d, part in procs:
            try:
                p.wait(timeout=max(1, t_end - time.time()))
            except subprocess.TimeoutExpired:
                for q, _, _ in procs:
                    q.kill()
                raise MachineryError(f'TLC trace validation timed out on {module}')
            out = open(os.path.join(d, 'out.txt')).read()
            vf = os.path.join(d, 'verdict.json')
            if p.returncode != 0 or not os.path.exists(vf):
                raise MachineryError(f'TLC trace validation failed on {module} rc={p.returncode}:\n{out[max(0, out.find(chr(10) + "Error")):][:3000]}')
            m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
            if m:
                self.transitions += int(m.group(1))
                self.states += int(m.group(2))
                if int(m.group(2)) < len(part):
                    raise MachineryError(f'{module}: only {m.group(2)} states for {len(part)} records')
            verdict = json.load(open(vf))
            for idx, clause in verdict:
                gi, rec = part[idx - 1]
                nbad += 1
                self.fail(clause, describe(gi, clause) if describe else f'{what} {gi}: {clause}', rec, key=key(gi, clause) if key else None)
        if count_traces:
            self.traces += len(records)
        self.cov.setdefault('validated', []).append({'module': module, 'records': len(records), 'rejected': nbad})
        return nbad

    # ---- running the code under test -----------------------------------
    def pool(self, limit=300):
        return Workers(self, limit)

    # ---- results -------------------------------------------------------
    def fail(self, clause, desc, payload=None, key=None):
        """key: stable identification of the failing input, matched against known findings."""
        for kf in self.known_findings:
            if key is not None and kf['key'] == key:
                if kf['key'] not in [k['key'] for k in self.known]:
                    self.known.append(kf)
                return
        self.violations.append((clause, desc, payload))

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self):
        wall = time.time() - self.t0
        if not self.samples:
            self.samples = [{'note': 'no sample recorded'}]
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', f'{self.pid}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + '.tmp', path)
        for kf in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {kf['what']}")
        if self.violations:
            rp = os.path.join(VERIF, 'replay')
            os.makedirs(rp, exist_ok=True)
            out = os.path.join(rp, f'{self.pid}.json')
            with open(out, 'w') as f:
                json.dump([dict(clause=c, what=d, input=p) for c, d, p in self.violations[:20]], f, indent=1, default=str)
            for c, d, _ in self.violations[:8]:
                print(f'  [{c}] {d}')
            if len(self.violations) > 8:
                print(f'  ... {len(self.violations)} in total')
            print(f'VIOLATION property={self.pid} replay={out}')
            sys.stdout.flush()
            sys.exit(1)
        print(f'OK property={self.pid} tier={self.tier} states={self.states} transitions={self.transitions} '
              f'traces={self.traces} wall={wall:.1f}s')
        sys.exit(0)


class Workers:
    """Runs jobs in forked processes. A job that ends its process (e.g. a crash within KLayout), or does not end within
    the limit, is a violation: of the properties checked here, none holds without an answer."""

    def __init__(self, check, limit):
        self.check = check
        self.limit = limit

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, fn, specs, chunksize=1):
        ctx = mp.get_context('fork')
        specs = list(specs)
        res = [None] * len(specs)
        chunks = [range(k, min(k + chunksize, len(specs))) for k in range(0, len(specs), chunksize)]
        chunks.reverse()
        died = []

        def worker(conn):
            while True:
                try:
                    k = conn.recv()
                except EOFError:
                    break
                if k is None:
                    break
                try:
                    conn.send((True, fn(specs[k])))
                except BaseException as e:
                    conn.send((False, (traceback.format_exc(), raised_by_code(e.__traceback__))))
            os._exit(0)

        class W:
            pass
        ws = []

        def start():
            w = W()
            a, b = ctx.Pipe()
            w.p = ctx.Process(target=worker, args=(b,), daemon=False)
            w.p.start()
            b.close()
            w.conn = a
            w.queue = []
            w.cur = None
            ws.append(w)
            return w

        def feed(w):
            if not w.queue and chunks:
                w.queue = list(chunks.pop())
                w.queue.reverse()
            if w.queue:
                w.cur = w.queue.pop()
                w.t = time.time()
                w.conn.send(w.cur)
            else:
                w.cur = None
                w.conn.send(None)
                w.conn.close()
                ws.remove(w)
                w.p.join()

        def lost(w, how):
            died.append((w.cur, how))
            w.p.kill()
            w.p.join()
            w.conn.close()
            ws.remove(w)
            if len(died) < 10:
                n = start()
                n.queue = w.queue
                feed(n)

        for _ in range(min(NPROC, len(chunks))):
            feed(start())
        error = None
        stop = False
        while ws and error is None and not stop:
            ready = mp.connection.wait([w.conn for w in ws], timeout=5)
            for w in [w for w in ws if w.conn in ready]:
                try:
                    ok, r = w.conn.recv()
                except (EOFError, OSError):
                    w.p.join(5)
                    lost(w, f'ended its process (status {w.p.exitcode})')
                    continue
                if not ok and r[1]:      # the code under test raised, and the harness did not expect it to
                    self.check.fail('crash', f'{r[0].strip().splitlines()[-1]}: {json.dumps(specs[w.cur], default=str)[:1500]}',
                                    dict(spec=specs[w.cur], trace=r[0][-3000:]))
                    stop = True
                    break
                if not ok:
                    error = r[0]
                    break
                res[w.cur] = r
                feed(w)
            for w in list(ws):
                if w.cur is not None and time.time() - w.t > self.limit:
                    died.append((w.cur, f'did not end within {self.limit} s'))
                    stop = True     # the answer is known, and waiting again for others would take too long
        for w in ws:
            w.p.kill()
            w.p.join()
        if error is not None:
            raise MachineryError('a job failed:\n' + error)
        if stop and not died:
            self.check.finish()
        if died:
            for k, how in died:
                self.check.fail('crash', f'the code under test {how}: {json.dumps(specs[k], default=str)[:1500]}', dict(spec=specs[k]))
            self.check.finish()
        return res

    imap = map


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if e.get('property') == pid and e.get('status') == 'open':
                    res.append(e)
    return res


def run_check(pid, fn, **kw):
    c = Check(pid, **kw)
    try:
        gen_repo()
        fn(c)
        c.finish()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        sys.stderr.flush()
        if raised_by_code(e.__traceback__):
            c.fail('crash', f'the code under test raised {type(e).__name__}: {e}', dict(trace=traceback.format_exc()[-3000:]))
        if c.violations:
            c.finish()
        print(f'ERROR property={pid}: the check itself failed')
        sys.exit(2)


def quiet_log():
    from klayout_pex.log import set_log_level, LogLevel
    set_log_level(LogLevel.CRITICAL)
