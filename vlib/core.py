"""Common machinery of the checks: runs the real code (drivers) and TLC (specifications), collects verdicts,
writes evidence and prints the outcome."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(VERIF, 'spec')
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known-findings.txt')


class MachineryError(Exception):
    """The check itself could not run: neither a pass nor a violation"""


class DriverFailed(Exception):
    """The real code could not be driven at all (import error, crash of the process, hang)"""


def _run(cmd, timeout, **kw):
    proc = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, text=True,
                            errors='replace', **kw)
    try:
        out, err = proc.communicate(timeout=timeout)
        return proc.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, signal.SIGKILL)
        out, err = proc.communicate()
        return None, out, err
    finally:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


class Ctx(object):

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='sbv_%s_' % prop)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.notes = {}
        self.fails = []  # dicts: clause, case, expected
        self.known = []
        self.runs = []
        self.assumptions = []

    # ------------------------------------------------------------------ real code
    def drive(self, driver, timeout=300, **params):
        """Runs drivers/<driver>.py on the real code; returns the path of its ndjson output & the parsed cases"""
        out = os.path.join(self.scratch, '%s_%d.ndjson' % (driver, len(self.runs)))
        self.runs.append(driver)
        params = dict(params, seed=self.seed, tier=self.tier, out=out, scratch=self.scratch)
        env = dict(os.environ, CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3', PYTHONPATH=VERIF + ':' + REPO,
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_REPO=REPO, TF_ENABLE_ONEDNN_OPTS='0')
        rc, so, se = _run([PY, os.path.join(VERIF, 'drivers', driver + '.py'), json.dumps(params)], timeout, env=env,
                          cwd=self.scratch)
        if rc != 0:
            tail = (so[-1500:] + '\n' + se[-3000:]).strip()
            if 'VDRIVER-MACHINERY' in tail:
                raise MachineryError(tail)
            raise DriverFailed('driver %s: %s\n%s' % (
                driver, 'no answer within %d s' % timeout if rc is None else 'exit code %s' % rc, tail))
        with open(out + '.full', encoding='utf-8') as f:
            cases = [json.loads(line) for line in f if line.strip()]
        if not cases:
            raise MachineryError('driver %s produced no case' % driver)
        return out, cases

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, timeout=800, workers=8, extra=()):
        meta = tempfile.mkdtemp(prefix='meta_', dir=self.scratch)
        cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseParallelGC', '-Xmx10g', '-Xss256m', '-cp', TLA_CP, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', meta, '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg'] + list(extra) + [module]
        rc, out, err = _run(cmd, timeout, cwd=SPEC, env=dict(os.environ, **(env or {})))
        shutil.rmtree(meta, ignore_errors=True)
        if rc is None:
            raise MachineryError('TLC on %s: no answer within %d s' % (module, timeout))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        return rc, out + err

    def validate(self, module, cases_path, cases, clauses=None, key=None, timeout=800, cfg=None, env=None):
        """Checks every recorded case against the specification.
        The trace module prints one line per case: CASE <n> OK | CASE <n> FAIL <clause>.
        Arg clauses: the clauses that concern this property (None: all)."""
        rc, out = self.tlc(module, cfg=cfg, env=dict(env or {}, CASES=cases_path), timeout=timeout)
        verdicts = {}
        for m in re.finditer(r'"?CASE (\d+) (OK|FAIL(?: [^"\n]*)?)"?', out):
            verdicts.setdefault(int(m.group(1)), set()).add(m.group(2))
        expected = {}
        for m in re.finditer(r'"EXPECTED", (\d+), (.*?)>>\n(?=\S)', out, re.S):
            expected.setdefault(int(m.group(1)), re.sub(r'\s+', ' ', m.group(2))[:4000])
        bad = re.search(r'^Error: (Attempted to|The first argument of|The second argument of|Evaluating |TLC threw an unexpected exception|In applying|In evaluation)', out, re.M)
        if rc != 0 and bad and not re.search(r'OutOfMemory|StackOverflow', out) and len(verdicts) != len(cases):
            # what was observed is no value of the kind the specification talks about
            m = re.findall(r'^(?:/\\ )?c?id = (\d+)', out, re.M)
            cid = int(m[-1]) if m else None
            self.fail('malformed', cases[cid - 1] if cid and cid <= len(cases) else {'error': 'unknown case'}, _tail(out)[:1500])
            return verdicts
        if rc != 0 and not re.search(r'Invariant \S+ is violated', out) or len(verdicts) != len(cases):
            raise MachineryError('TLC on %s: %d verdicts for %d cases, exit %s\n%s' % (
                module, len(verdicts), len(cases), rc, _tail(out)))
        if rc != 0:
            raise MachineryError('specification %s violates its own invariant\n%s' % (module, _tail(out)))
        self.validated += len(verdicts)
        if len(self.samples) < 6:
            self.samples.extend(_short(c) for c in cases[:: max(1, len(cases) // 3)][:3])
        for cid, vs in sorted(verdicts.items()):
            for v in sorted(vs):
                if v == 'OK':
                    continue
                clause = v[5:]
                if clauses is None or clause.split(' ')[0].split(':')[0] in clauses:
                    self.fail(clause, cases[cid - 1], expected.get(cid))
                else:
                    self.notes['other_clause_' + clause.split(' ')[0]] = \
                        self.notes.get('other_clause_' + clause.split(' ')[0], 0) + 1
        return verdicts

    def model_check(self, module, cfg=None, timeout=800, must=(), env=None, extra=()):
        """Exhaustive exploration of a specification; a violated invariant here is a fault of the specification"""
        rc, out = self.tlc(module, cfg=cfg, timeout=timeout, env=env, extra=extra)
        if rc != 0:
            raise MachineryError('TLC on %s: exit %d\n%s' % (cfg or module, rc, _tail(out)))
        for text in must:
            if text not in out:
                raise MachineryError('TLC on %s: %r never reached' % (cfg or module, text))
        return out

    def behaviours(self, module, cfg=None, timeout=800, env=None, extra=()):
        """Explores a specification and returns the behaviours it prints as JSON (lines BEH <json>)"""
        rc, out = self.tlc(module, cfg=cfg, timeout=timeout, env=env, extra=extra)
        if rc != 0:
            raise MachineryError('TLC on %s: exit %d\n%s' % (cfg or module, rc, _tail(out)))
        behs = []
        for m in re.finditer(r'^"BEH (.*)"$', out, re.M):
            behs.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
        if not behs:
            raise MachineryError('TLC on %s printed no behaviour\n%s' % (module, _tail(out)))
        return behs

    def fail(self, clause, case, expected=None):
        self.fails.append({'clause': clause, 'case': case, 'expected': expected})

    # ------------------------------------------------------------------ outcome
    def finish(self, level='model_checking'):
        known = _known_findings(self.prop)
        fresh = []
        for f in self.fails:
            k = f['case'].get('key') if isinstance(f['case'], dict) else None
            hit = [e for e in known if e['key'] == k and f['clause'].startswith(e['clause'])] if k is not None else []
            (self.known if hit else fresh).append((f, hit[0]) if hit else f)
        os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated, 'samples': self.samples[:6] or ['-']}
        cov.update(self.notes)
        evidence = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
                    'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
                    'violations': len(fresh)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False, default=str)
        seen = set()
        for f, e in self.known:
            if e['raw'] not in seen:
                seen.add(e['raw'])
                print('KNOWN-FINDING: property=%s %s' % (self.prop, e['what']))
        if not fresh:
            print('OK property=%s cases=%d states=%d wall=%.1fs' % (
                self.prop, self.validated, self.states, time.time() - self.t0))
            return 0
        replay = os.path.join(EVID, 'replays', '%s.json' % self.prop)
        with open(replay, 'w') as f:
            json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'count': len(fresh),
                       'violations': fresh[:25]}, f, indent=1, ensure_ascii=False, default=str)
        for x in fresh[:5]:
            print('  %s: %s' % (x['clause'], json.dumps(_short(x['case']), ensure_ascii=False)[:600]))
            if x['expected']:
                print('     expected: %s' % x['expected'][:300])
        print('VIOLATION property=%s replay=%s' % (self.prop, replay))
        return 1

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def _tail(out):
    lines = [x for x in out.splitlines() if not re.match(r'(Parsing|Semantic|Linting|Computed|"?CASE|"?BEH)', x)]
    i = next((k for k, x in enumerate(lines) if 'Error' in x), 0)
    return '\n'.join(lines[i:i + 60])[:6000]


def _short(case):
    if isinstance(case, dict) and 'show' in case:
        return case['show']
    s = json.dumps(case, ensure_ascii=False, default=str)
    return case if len(s) < 1500 else s[:1500] + '...'


def _known_findings(prop):
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) clause=(\S+) input=("(?:[^"\\]|\\.)*") (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append({'key': json.loads(m.group(3)), 'clause': m.group(2), 'what': m.group(4),
                            'raw': line})
    return res


def main(run, prop, tier, seed):
    ctx = Ctx(prop, tier, seed)
    try:
        try:
            run(ctx)
        except DriverFailed as e:
            ctx.fail('driver', {'error': str(e)})
        return ctx.finish()
    except MachineryError as e:
        print('MACHINERY-ERROR property=%s\n%s' % (prop, e), file=sys.stderr)
        return 3
    finally:
        ctx.close()
