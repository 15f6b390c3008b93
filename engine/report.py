"""Verdicts, evidence files and exit codes shared by all checks."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.viol = []          # (where, rule, message)
        self.undec = {}
        self.rules = {}         # rule -> [obligations, discharged]
        self.text = {}          # rule -> statement
        self.samples = []
        self.cov = {}
        self.notes = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'

    def rule(self, name, text, least=0):
        self.rules.setdefault(name, [0, 0, least])
        self.text[name] = text

    def ok(self, rule, n=1, sample=None):
        r = self.rules.setdefault(rule, [0, 0, 0])
        r[0] += n
        r[1] += n
        if sample and len(self.samples) < 12:
            self.samples.append('%s: %s' % (rule, sample))

    def bad(self, rule, where, msg):
        self.rules.setdefault(rule, [0, 0, 0])[0] += 1
        self.viol.append((where, rule, msg))

    def skip(self, rule, why):
        self.rules.setdefault(rule, [0, 0, 0])[0] += 1
        self.undec[(rule, why)] = self.undec.get((rule, why), 0) + 1

    def known(self):
        """known findings: lines `known: property=<id> <file> :: <text> && <text> :: <what fails>`"""
        out = []
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('known: property=%s ' % self.prop):
                    out.append(l[len('known: property=%s ' % self.prop):])
        return out

    def finish(self, level, explanation, assumptions):
        broken = []
        for n, (o, d, least) in self.rules.items():
            if o < least:
                broken.append('rule %s matched %d instances, at least %d were confirmed by hand' % (n, o, least))
        known = self.known()
        viol, shown = [], []
        for w, r, m in self.viol:
            k = [x for x in known if x.split(' :: ')[0] in w and all(t in m for t in x.split(' :: ')[1].split(' && '))]
            if k:
                shown.append((k[0], w, m))
            else:
                viol.append((w, r, m))
        obl = sum(r[0] for r in self.rules.values())
        dis = sum(r[1] for r in self.rules.values())
        cov = {'obligations': obl, 'discharged': dis, 'undecided': sum(self.undec.values()),
               'rules': {n: {'rule': self.text.get(n, ''), 'instances': o, 'discharged': d} for n, (o, d, _) in self.rules.items()},
               'explanation': explanation, 'samples': self.samples[:12]}
        if self.undec:
            cov['not_decided'] = ['%s: %s (x%d)' % (a, b, c) for (a, b), c in sorted(self.undec.items())][:200]
        cov.update(self.cov)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
              'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d not decided, %.1f s' % (self.prop, obl, dis, sum(self.undec.values()), time.time() - self.t0))
        for n, (o, d, _) in sorted(self.rules.items()):
            print('  rule %-28s %6d instances %6d discharged   %s' % (n, o, d, self.text.get(n, '')))
        for n in self.notes:
            print('  ' + n)
        for k, w, m in sorted({k[0]: k for k in shown}.values()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if viol:
            rp = os.path.join(VERIF, 'evidence', '%s.violations.txt' % self.prop)
            with open(rp, 'w') as f:
                for w, r, m in viol:
                    f.write('%s [%s] %s\n' % (w, r, m))
            for w, r, m in viol[:25]:
                print('  %s [%s] %s' % (w, r, m))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if broken:
            for b in broken:
                print('analysis broken: ' + b)
            return 2
        return 0
