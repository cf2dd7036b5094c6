"""Common machinery of all checks: running TLC, validating recorded traces
against a TLA+ module, replaying spec-generated behaviours, evidence files,
known findings, violation reporting.

Exit codes: 0 = held, 1 = VIOLATION line(s) printed, 2 = the machinery failed
(never reported as a violation)."""
import concurrent.futures as cf
import contextlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA_CP = ':'.join(['/opt/veriftools/tla/tla2tools.jar',
                   '/opt/veriftools/tla/CommunityModules-deps.jar'])
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NJOBS = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


class TlcTimeout(MachineryError):
    pass


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.generated = self.distinct = 0
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out):
            self.generated, self.distinct = int(m.group(1)), int(m.group(2))
        self.ok = 'Model checking completed. No error has been found.' in out


def tlc(module, cfg=None, env=None, workers=1, timeout=800, extra=(), heap='2g',
        deadlock=False, must_pass=True, stack='64m'):
    """Runs TLC on spec/<module>.tla with spec/<cfg or module>.cfg"""
    meta = tempfile.mkdtemp(prefix='tlc_')
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
               '-Xmx' + heap, '-Xss' + stack, '-XX:TieredStopAtLevel=4',
               '-cp', TLA_CP, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers),
               '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg']
        if not deadlock:
            cmd.append('-deadlock')
        cmd += list(extra) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout,
                               encoding='utf-8', errors='replace')
        except subprocess.TimeoutExpired:
            raise TlcTimeout(f'TLC timed out on {module} after {timeout}s')
        r = TLCResult(p.stdout, p.returncode)
        if must_pass and not r.ok:
            raise MachineryError(f'TLC failed on {module} (rc={p.returncode}):\n' + p.stdout[-6000:])
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def _unq(s):
    return s.replace('\\"', '"').replace('\\\\', '\\')


class Check:
    """One property check."""

    def __init__(self, prop, level='model_checking', rule=''):
        self.prop, self.level, self.rule = prop, level, rule
        self.t0 = time.time()
        self.violations = []     # (signature, replay dict)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.rng = random.Random(f'{prop}:{SEED}:{TIER}')
        self.known = [k for k in load_known() if k.get('property') == prop
                      and k.get('status') == 'open']
        self.known_seen = set()

    # -- counting ---------------------------------------------------------
    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def design(self, module, cfg=None, workers=NJOBS, **kw):
        """Exhaustive model checking of a design spec."""
        r = tlc(module, cfg, workers=workers, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault('design_runs', []).append(
            {'module': module, 'cfg': cfg or module, 'distinct': r.distinct,
             'generated': r.generated})
        return r

    def generate_many(self, module, envs, **kw):
        """Several generator runs in parallel."""
        with cf.ThreadPoolExecutor(NJOBS) as ex:
            return [x for xs in ex.map(lambda e: self.generate(module, env=e, **kw), envs)
                    for x in xs]

    def generate(self, module, cfg=None, workers=1, env=None, **kw):
        """Lets TLC enumerate a spec's behaviours; the spec writes one JSON value per
        behaviour with PrintT(<<"GEN", ToJson(v)>>) ; returns list of the values."""
        r = tlc(module, cfg, workers=workers, env=env, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        res = []
        for line in r.out.splitlines():
            if line.startswith('<<"GEN", "'):
                res.append(json.loads(_unq(line[len('<<"GEN", "'):-len('">>')])))
        self.extra.setdefault('generator_runs', []).append(
            {'module': module, 'cfg': cfg or module, 'distinct': r.distinct,
             'generated': r.generated, 'behaviours': len(res)})
        return res

    def validate(self, module, records, cfg=None, env=None, jobs=NJOBS, timeout=800,
                 min_chunk=25, heap='2g', what='trace', stack='64m', replays=None):
        """Validates recorded observations of the real code against <module>, which
        must define Verdict-style checking over the ndjson file IOEnv.TRACE and
        print <<"BAD", i, {clauses}>> for each failing record i."""
        n = len(records)
        if n == 0:
            return []
        k = max(1, min(jobs, n // min_chunk or 1))
        tmp = tempfile.mkdtemp(prefix='trace_')
        bad = []
        try:
            chunks = [list(range(i, n, k)) for i in range(k)]

            def run(ci):
                return judge(chunks[ci], f't{ci}', timeout // 4)

            def judge(idx, name, limit):
                """Judges the records idx; those that the model needs too long for are set aside."""
                try:
                    return once(idx, name, limit)
                except TlcTimeout:
                    if len(idx) == 1:
                        self.count('too_expensive')
                        r = TLCResult('', 0)
                        return r, []
                    h = max(1, len(idx) // 8)
                    rs = [judge(idx[a:a+h], f'{name}_{a}', max(10, limit // 4)) for a in range(0, len(idx), h)]
                    r = rs[0][0]
                    r.distinct, r.generated = sum(x[0].distinct for x in rs), sum(x[0].generated for x in rs)
                    return r, [b for x in rs for b in x[1]]

            def once(idx, name, limit):
                fn = os.path.join(tmp, f'{name}.ndjson')
                with open(fn, 'w', encoding='utf-8') as f:
                    for i in idx:
                        f.write(json.dumps(records[i], ensure_ascii=True) + '\n')
                e = dict(env or {})
                e['TRACE'] = fn
                r = tlc(module, cfg, env=e, workers=1, timeout=limit, heap=heap, stack=stack)
                if r.distinct < len(idx) + 1:
                    raise MachineryError(f'{module}: only {r.distinct} states for '
                                         f'{len(idx)} records\n' + r.out[-3000:])
                b = []
                out = r.out
                for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(.*?)\s*>>\s*$', out,
                                     re.MULTILINE | re.DOTALL):
                    b.append((idx[int(m.group(1)) - 1], re.sub(r'\s+', ' ', m.group(2))))
                return r, b
            with cf.ThreadPoolExecutor(k) as ex:
                for r, b in ex.map(run, range(k)):
                    self.states += r.distinct
                    self.transitions += r.generated
                    bad.extend(b)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self.traces += n
        if records and len(self.samples) < 3:
            self.samples.append(shorten(records[len(records) // 2]))
        bad.sort()
        for i, why in bad:
            rep = {'spec': module, 'failing_clauses': why, 'record': records[i]}
            m = re.match(r'(\{.*?\}), "(.*)"$', why)
            if m:      # <<"BAD", i, clauses, "expected outcome as JSON">>
                why, rep['expected'] = m.group(1), _unq(m.group(2))
                rep['failing_clauses'] = why
                with contextlib.suppress(ValueError):
                    rep['expected'] = json.loads(rep['expected'])
            if replays:
                rep['replay'] = replays[i]
            if isinstance(records[i], dict) and records[i].get('case'):
                rep['case'] = records[i]['case']      # a fixed case (see known_matches)
            self.violation(f'{module}:{why}', rep)
        return bad

    def violation(self, signature, replay):
        self.violations.append((signature, replay))

    # -- end ----------------------------------------------------------------
    def finish(self):
        new = []
        rd = os.path.join(VERIF, 'evidence', 'replay')
        for fn in (os.listdir(rd) if os.path.isdir(rd) else ()):
            if fn.startswith(self.prop + '-'):
                os.remove(os.path.join(rd, fn))
        for sig, rep in self.violations:
            k = next((k for k in self.known if known_matches(k, sig, rep)), None)
            if k is None:
                new.append((sig, rep))
            else:
                self.known_seen.add(k['id'])
        for k in self.known:
            if k['id'] in self.known_seen:
                print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']}")
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level,
              'coverage': dict(states=self.states, transitions=self.transitions,
                               traces_validated_against_impl=self.traces,
                               rule=self.rule, samples=self.samples or ['(none)'], **self.extra),
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            for j, (sig, rep) in enumerate(new[:5]):
                fn = os.path.join(d, f'{self.prop}-{j}.json')
                with open(fn, 'w') as f:
                    json.dump({'property': self.prop, 'signature': sig, 'seed': SEED,
                               'tier': TIER, **rep}, f, indent=1, default=str)
                print('  ' + str(sig)[:300])
                print(f'VIOLATION property={self.prop} replay={fn}')
            if os.environ.get('VERIF_DUMP'):      # (for development: all violations, with their signatures)
                with open(os.environ['VERIF_DUMP'], 'w') as f:
                    for sig, rep in new:
                        f.write(json.dumps({'signature': sig, **rep}, default=str) + '\n')
            if len(new) > 5:
                print(f'  ... and {len(new) - 5} more violating cases')
            return 1
        print(f'OK property={self.prop} states={self.states} transitions={self.transitions} '
              f'traces={self.traces} wall={ev["wall_s"]}s')
        return 0


def shorten(x, n=1500):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + ' ...'


def load_known():
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [json.loads(l) for l in f if l.strip()]


def known_matches(k, sig, rep):
    """A listed finding names the exact case (a `case` key every fixed case carries)."""
    return rep.get('case') is not None and rep.get('case') == k.get('case')


def chars(s):
    return list(s)


def main(prop, fn, **kw):
    c = Check(prop, **kw)
    try:
        fn(c)
        rc = c.finish()
    except MachineryError as e:
        print('MACHINERY ERROR', prop, e)
        rc = 2
    except Exception:
        traceback.print_exc()
        print('MACHINERY ERROR', prop)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


def pmap(fn, items, jobs=NJOBS, chunk=None):
    """Process-pool map for running the real code on many cases."""
    import multiprocessing as mp
    items = list(items)
    if len(items) < 16:
        return [fn(x) for x in items]
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs) as pool:
        return pool.map(fn, items, chunksize=chunk or max(1, len(items) // (jobs * 4)))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vscratch_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
