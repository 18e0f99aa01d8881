#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : decide one property from /repo's source.

exit 0: held on everything analysed; exit 1: violation(s), one VIOLATION line each
property; exit 2: the analysis itself could not be carried out (no verdict)."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')


def known_findings(pid):
    """key -> text, from lines 'KNOWN-FINDING: property=<id> key=<key> :: <what fails>'"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            pre = 'KNOWN-FINDING: property=%s key=' % pid
            if ln.startswith(pre):
                key, _, what = ln[len(pre):].partition(' :: ')
                out[key.strip()] = what.strip()
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self._prog = None
        self.viol = []
        self.obligations = []      # (rule, description, ok)
        self.analysed = set()
        self.paths = 0
        self.rules = []
        self.assumptions = []
        self.notes = {}
        self.samples = []

    @property
    def prog(self):
        if self._prog is None:
            from program import Program
            self._prog = Program()
        return self._prog

    def rule(self, name, text):
        self.rules.append('%s: %s' % (name, text))

    def assume(self, text):
        self.assumptions.append(text)

    def ok(self, rule, what):
        self.obligations.append((rule, what, True))

    def fail(self, rule, what, file, line, func, msg, key=None, witness=None):
        """an undischarged obligation; key identifies the construct without line numbers"""
        key = key or '%s|%s|%s' % (rule, func, what)
        if any(v['key'] == key for v in self.viol):
            return
        self.obligations.append((rule, what, False))
        self.viol.append(dict(rule=rule, what=what, file=file, line=line, func=func, msg=msg, key=key,
                              witness=witness or []))

    def judge(self, cond, rule, what, file, line, func, msg, key=None, witness=None):
        if cond:
            self.ok(rule, what)
        else:
            self.fail(rule, what, file, line, func, msg, key, witness)
        return cond

    def see(self, x):
        """record functions an Exec analysed"""
        for u in x.visited:
            f = self.prog.funcs.get(u)
            if f:
                self.analysed.add(f['f'])


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    ctx = Ctx(pid, tier)
    from program import AnalysisError
    try:
        mod = importlib.import_module('rules.' + pid.lower())
        mod.check(ctx)
        if not ctx.obligations:
            raise AnalysisError('no instance of the rule was found (vacuous)')
    except AnalysisError as ex:
        print('ANALYSIS-ERROR property=%s %s' % (pid, ex))
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % pid)
        return 2
    known = known_findings(pid)
    new = [v for v in ctx.viol if v['key'] not in known]
    old = [v for v in ctx.viol if v['key'] in known]
    wall = time.time() - t0
    nob = len(ctx.obligations)
    nok = sum(1 for o in ctx.obligations if o[2])
    byrule = {}
    for r, _, k in ctx.obligations:
        a = byrule.setdefault(r, [0, 0])
        a[0] += 1
        a[1] += 1 if k else 0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
              coverage=dict(
                  explanation='Static analysis of the resolved syntax trees of %d translation units of /repo: %d '
                              'obligations found by the rules, %d discharged; %d functions analysed, %d abstract paths.'
                              % (len(ctx.prog.tus), nob, nok, len(ctx.analysed), ctx.paths),
                  rules=ctx.rules, obligations=nob, discharged=nok,
                  obligations_by_rule={k: dict(found=v[0], discharged=v[1]) for k, v in sorted(byrule.items())},
                  translation_units=len(ctx.prog.tus), functions_in_program=len(ctx.prog.funcs),
                  functions_analysed=sorted(ctx.analysed), abstract_paths=ctx.paths,
                  instances=['%s: %s [%s]' % (r, w, 'ok' if k else 'VIOLATED') for r, w, k in ctx.obligations][:400],
                  known_findings=[v['key'] for v in old], **ctx.notes),
              assumptions=ctx.assumptions, wall_s=round(wall, 2), violations=len(new))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('property=%s translation_units=%d functions=%d paths=%d obligations=%d discharged=%d wall=%.1fs'
          % (pid, len(ctx.prog.tus), len(ctx.analysed), ctx.paths, nob, nok, wall))
    for r, v in sorted(byrule.items()):
        print('  rule %s: %d instance(s), %d discharged' % (r, v[0], v[1]))
    for v in old:
        print('KNOWN-FINDING: property=%s %s (%s:%s %s)' % (pid, known[v['key']], v['file'], v['line'], v['func']))
    rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
    if not new and os.path.exists(rp):
        os.remove(rp)
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as fh:
            for v in new:
                fh.write('%s:%s in %s\n  rule %s\n  %s\n  key=%s\n' % (v['file'], v['line'], v['func'], v['rule'], v['msg'], v['key']))
                for w in v['witness']:
                    fh.write('    ' + w + '\n')
        for v in new:
            print('  %s:%s in %s: [%s] %s  {key=%s}' % (v['file'], v['line'], v['func'], v['rule'], v['msg'], v['key']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
