"""Obligations, verdicts and evidence of one check."""
import json
import os
import pickle
import sys
import time
import traceback

from .interp import AnalysisError, fmt_loc, show_exc
from .program import load_program
from .terms import V, show

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Ctx:
    def __init__(self, pid, tier, repo='/repo'):
        self.pid, self.tier, self.repo = pid, tier, repo
        self.t0 = time.time()
        self.rules = {}          # rule -> [checked, failed]
        self.found = {}          # key -> (rule, construct, message, loc)
        self.samples = {}
        self.counts = {}
        self._p = self._driver = self._runs = None
        self.assumptions = []

    # -- the analysed program
    @property
    def p(self):
        if self._p is None:
            self._p = load_program(os.path.join(self.repo, 'src'))
        return self._p

    @property
    def driver(self):
        if self._driver is None:
            from .drive import Driver
            self._driver = Driver(self.p)
        return self._driver

    @property
    def runs(self):
        if self._runs is None:
            self._runs = self.driver.explore()
            self.count('connection_states', len(self.driver.entries))
            self.count('state_message_pairs', len(self._runs))
            self.count('path_outcomes', sum(len(r.outs) for r in self._runs))
        return self._runs

    # -- obligations
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def check(self, cond, rule, construct, msg='', loc=None):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if cond:
            s = self.samples.setdefault(rule, [])
            if len(s) < 4 and construct not in s:
                s.append(construct)
            return True
        r[1] += 1
        self.found.setdefault((rule, construct), (msg, fmt_loc(loc) if isinstance(loc, tuple)
                                                  else (loc or '?')))
        return False

    def bad(self, rule, construct, msg='', loc=None):
        return self.check(False, rule, construct, msg, loc)

    def need(self, rule, n, what=''):
        """a rule that found fewer instances than the protocol has is a broken anchor"""
        got = self.rules.get(rule, [0])[0]
        if got < n:
            raise AnalysisError(f'rule {rule}: {got} instances found, at least {n} expected {what}')

    def each(self, fn, items, workers=8):
        """fn(item) for every item, spread over processes; obligations are collected"""
        items = list(items)
        workers = min(workers, os.cpu_count() or 1, len(items))
        if workers <= 1:
            for x in items:
                fn(x)
            return
        pipes = []
        sys.stdout.flush()
        for w in range(workers):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    self.rules, self.found, self.samples, self.counts = {}, {}, {}, {}
                    base = [(d, d.I.n_calls, d.I.n_branches, d.I.joins) for d in self.extra]
                    err = None
                    try:
                        for x in items[w::workers]:
                            fn(x)
                    except AnalysisError as exc:
                        err = str(exc)
                    except Exception as exc:
                        err = f'{type(exc).__name__}: {exc}'
                        if '-v' in sys.argv:
                            traceback.print_exc()
                    work = [(sorted(d.I.fns), d.I.n_calls - a, d.I.n_branches - b, d.I.joins - c)
                            for d, a, b, c in base]
                    with os.fdopen(wr, 'wb') as f:
                        pickle.dump((self.rules, self.found, self.samples, self.counts, work, err), f)
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            os.close(wr)
            pipes.append((pid, r))
        errors = []
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                errors.append('a worker died')
                continue
            rules, found, samples, counts, work, err = pickle.loads(data)
            for k, (a, b) in rules.items():
                x = self.rules.setdefault(k, [0, 0])
                x[0] += a
                x[1] += b
            for k, v in found.items():
                self.found.setdefault(k, v)
            for k, v in samples.items():
                s = self.samples.setdefault(k, [])
                s += [y for y in v if y not in s][:4 - len(s)]
            for k, v in counts.items():
                self.count(k, v)
            for d, (fns, a, b, c) in zip(self.extra, work, strict=False):
                d.I.fns |= set(fns)
                d.I.n_calls += a
                d.I.n_branches += b
                d.I.joins += c
            if err:
                errors.append(err)
        if errors:
            raise AnalysisError(errors[0])

    # -- result
    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            with open(KNOWN, encoding='utf-8') as f:
                for line in f:
                    line = line.strip()
                    if line.startswith(f'KNOWN property={self.pid} '):
                        rest = line[len(f'KNOWN property={self.pid} '):]
                        key, _, desc = rest.partition(' :: ')
                        out[key.removeprefix('key=')] = desc
        return out

    def finish(self, spec):
        known = self.known()
        viol, lines = [], []
        for (rule, construct), (msg, loc) in sorted(self.found.items()):
            key = f'{rule} {construct}'
            if key in known:
                lines.append(f'KNOWN-FINDING: property={self.pid} {key}: {known[key]}')
            else:
                viol.append({'rule': rule, 'construct': construct, 'message': msg, 'at': loc})
        ob = sum(r[0] for r in self.rules.values())
        ok = sum(r[0] - r[1] for r in self.rules.values())
        cov = {
            'obligations': ob, 'discharged': ok,
            'rules': {k: {'instances': v[0], 'failed': v[1], 'examples': self.samples.get(k, [])}
                      for k, v in self.rules.items()},
            'modules_parsed': len(self.p.modules), 'classes': len(self.p.classes),
            'functions_in_tree': len(self.p.funcs),
            **self.counts,
            'explanation': spec.get('explanation', spec.get('technique', '')),
        }
        fns = set()
        for d in [self._driver, *self.extra]:
            if d is not None:
                fns |= d.I.fns
                cov['calls_inlined'] = cov.get('calls_inlined', 0) + d.I.n_calls
                cov['branches_decided_or_split'] = (
                    cov.get('branches_decided_or_split', 0) + d.I.n_branches)
                cov['joins'] = cov.get('joins', 0) + d.I.joins
        if fns:
            cov['functions_interpreted'] = len(fns)
        ev = {
            'property': self.pid, 'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': spec['level'], 'coverage': cov,
            'wall_s': round(time.time() - self.t0, 3),
            'assumptions': [*spec.get('assumptions', []), *self.assumptions],
            'violations': viol,
        }
        if lines:
            cov['known_findings'] = lines
        evidence = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
        os.makedirs(evidence, exist_ok=True)
        with open(os.path.join(evidence, f'{self.pid}.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, default=str)
        for ln in lines:
            print(ln)
        if not viol:
            print(f'{self.pid}: {ok}/{ob} obligations hold, {len(lines)} known findings, '
                  f'{ev["wall_s"]} s')
            return 0
        path = os.path.join(evidence, f'{self.pid}.replay.txt')
        with open(path, 'w', encoding='utf-8') as f:
            for v in viol:
                f.write(f"{v['at']}: [{v['rule']}] {v['construct']}\n    {v['message']}\n")
        for v in viol[:20]:
            print(f"{v['at']}: [{v['rule']}] {v['construct']}: {v['message']}"[:600])
        print(f'VIOLATION property={self.pid} replay={path}')
        return 1

    extra = ()


def main(spec, run, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = 'thorough' if 'thorough' in argv else 'quick'
    repo = next((a[7:] for a in argv if a.startswith('--repo=')), '/repo')
    ctx = Ctx(spec['id'], tier, repo)
    ctx.extra = []
    try:
        run(ctx)
        return ctx.finish(spec)
    except AnalysisError as exc:
        if '-v' in argv:
            traceback.print_exc()
        print(f'ERROR: {spec["id"]}: analysis could not decide: {exc}')
        if ctx.found:
            # what was already established stands on its own
            return ctx.finish(spec)
        return 2
    except Exception as exc:
        if '-v' in argv:
            traceback.print_exc()
        print(f'ERROR: {spec["id"]}: the analyser failed: {type(exc).__name__}: {exc}'[:500])
        return ctx.finish(spec) if ctx.found else 2


__all__ = ['AnalysisError', 'Ctx', 'V', 'main', 'show', 'show_exc']
