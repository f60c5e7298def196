"""Obligations, verdicts and the evidence file shared by all checks.

An obligation is (rule, construct, path): discharged, violated (with a reason) or undecided.
 exit 0  every obligation discharged (known findings are printed, not raised)
 exit 1  at least one violated obligation that /verif/known_findings.txt does not list
 exit 2  the analysis could not answer (vanished anchor, undecided obligation, too few instances)
"""
import json, os, sys, time, traceback
from ir import VERIF, AnalysisError

class Report:
    def __init__(self, prop, level='other', explanation='', assumptions=()):
        self.prop = prop; self.level = level; self.explanation = explanation
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.n = {}; self.ok = 0; self.viol = []; self.undec = []; self.cover = {}; self.samples = []
        self.where = {}
    def check(self, rule, where, ok, detail='', path=None):
        """record one obligation; ok is True, False or None"""
        self.n[rule] = self.n.get(rule, 0) + 1
        self.where.setdefault(rule, set()).add(where)
        if ok is True:
            self.ok += 1
            if len(self.samples) < 12 and not any(s.get('rule') == rule for s in self.samples):
                self.samples.append({'rule': rule, 'at': where, 'result': 'discharged', 'detail': str(detail)[:300]})
        elif ok is False:
            if not any(v['rule'] == rule and v['where'] == where for v in self.viol):
                self.viol.append({'rule': rule, 'where': where, 'detail': str(detail), 'path': path})
        else:
            if not any(v['rule'] == rule and v['where'] == where for v in self.undec):
                self.undec.append({'rule': rule, 'where': where, 'detail': str(detail), 'path': path})
        return ok
    def violation(self, rule, where, detail='', path=None): return self.check(rule, where, False, detail, path)
    def need(self, rule, count, what=''):
        """the rule must have matched at least count instances"""
        if self.n.get(rule, 0) < count:
            raise AnalysisError('rule %r matched %d instances, expected at least %d %s' % (rule, self.n.get(rule, 0), count, what))

def known():
    p = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property='):
                pid, _, rest = l[len('finding: property='):].partition(' ')
                rule, _, rest = rest.partition(' | '); where, _, what = rest.partition(' | ')
                out.append((pid, rule, where, what))
    return out

def run_check(prop, fn, level='other', explanation='', assumptions=()):
    rep = Report(prop, level, explanation, assumptions)
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = 0; err = None
    try:
        fn(rep)
    except AnalysisError as e:
        err = str(e)
    except Exception as e:
        err = 'internal error: ' + '\n'.join(traceback.format_exc().splitlines()[-12:])
    kn = known(); raised = []
    for v in rep.viol:
        hit = [k for k in kn if k[0] == prop and k[1] == v['rule'] and k[2] == v['where']]
        if hit: print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][3]))
        else: raised.append(v)
    edir = os.path.join(VERIF, 'evidence'); os.makedirs(edir, exist_ok=True)
    if raised:
        rdir = os.path.join(edir, 'replay'); os.makedirs(rdir, exist_ok=True)
        if len(raised) > 20: print('%d violations, the first 20 are listed' % len(raised))
        for i, v in enumerate(raised[:20]):
            p = os.path.join(rdir, '%s-%d.txt' % (prop, i))
            with open(p, 'w') as f:
                f.write('property %s violated\nrule: %s\nat: %s\n%s\n' % (prop, v['rule'], v['where'], v['detail']))
                if v['path']: f.write('path:\n' + '\n'.join('  ' + str(x) for x in v['path']) + '\n')
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('  %s: %s: %s' % (v['where'], v['rule'], v['detail'][:600]))
        rc = 1
    elif err: rc = 2
    elif rep.undec and (not rep.ok or os.environ.get('VERIF_STRICT')): rc = 2
    for u in rep.undec: print('UNDECIDED %s %s: %s: %s' % (prop, u['where'], u['rule'], u['detail'][:600]))
    if err: print('ANALYSIS ERROR %s: %s' % (prop, err))
    total = sum(rep.n.values())
    cov = {'explanation': rep.explanation, 'obligations': total, 'discharged': rep.ok,
           'by_rule': {r: {'obligations': n, 'constructs': len(rep.where[r])} for r, n in sorted(rep.n.items())},
           'constructs': sorted({w for s in rep.where.values() for w in s})[:200],
           'samples': rep.samples}
    cov['undecided'] = ['%s: %s: %s' % (u['where'], u['rule'], u['detail'][:300]) for u in rep.undec]
    cov.update(rep.cover)
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': rep.level,
          'coverage': cov, 'assumptions': rep.assumptions, 'wall_s': round(time.time() - rep.t0, 3), 'violations': len(raised)}
    with open(os.path.join(edir, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations over %d rules, %d discharged, %d violated, %d undecided, %.1f s' % (prop, total, len(rep.n), rep.ok, len(raised), len(rep.undec), time.time() - rep.t0))
    return rc
