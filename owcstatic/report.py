"""Obligations, known findings, evidence and exit status of one check."""
import json
import os
import sys
import time
import traceback

VERIF = os.environ.get('OWC_VERIF') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OWC_REPO', '/repo')


class Check:
    def __init__(self, prop, title, rule, reach):
        self.prop, self.title, self.rule_text, self.reach = prop, title, rule, reach
        self.t0 = time.time()
        self.obs = []            # (rule, instance, status, detail, loc)
        self.assumptions = []
        self.analysed = {}
        self.errors = []

    # -- recording ----------------------------------------------------------
    def _add(self, rule, inst, status, detail, loc):
        self.obs.append({'rule': rule, 'instance': str(inst), 'status': status, 'detail': str(detail)[:1500],
                         'loc': str(loc) if loc else ''})

    def ok(self, rule, inst, detail='', loc=None):
        self._add(rule, inst, 'ok', detail, loc)

    def bad(self, rule, inst, detail='', loc=None):
        self._add(rule, inst, 'violation', detail, loc)

    def und(self, rule, inst, detail='', loc=None):
        self._add(rule, inst, 'undecided', detail, loc)

    def that(self, cond, rule, inst, detail='', loc=None):
        """cond True/False/None (None: not decided)."""
        (self.ok if cond else self.und if cond is None else self.bad)(rule, inst, detail, loc)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def covered(self, it):
        """Record what an interpreter run covered."""
        q = it.entry if hasattr(it, 'entry') else '?'
        fns = sorted({e.name for e in it.events if e.kind == 'enter'})
        self.analysed[q] = {'functions': fns, 'events': len(it.events),
                            'call_sites': len({e.loc for e in it.events if e.kind == 'call'}),
                            'unmodelled': [f"{w} at {l}" for w, l in it.opaques][:20]}

    def rule(self, fn, *args):
        """Run one rule; a rule that cannot cope with the code is undecided, never an alarm."""
        try:
            fn(self, *args)
        except Exception as e:       # noqa: the analyser must not turn its own limits into alarms
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.errors.append(f"{fn.__name__}: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
            self._add(fn.__name__, 'whole rule', 'undecided', self.errors[-1], None)
            if os.environ.get('OWC_DEBUG'):
                traceback.print_exc()

    def shadow(self, fn):
        """Obligations another check's rule generates, without recording them."""
        c = Check(self.prop, self.title, '', '')
        fn(c)
        return c.obs

    # -- known findings -------------------------------------------------------
    def known(self):
        out = {}
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            for line in open(path, encoding='utf-8'):
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                body = line[len('finding:'):].strip()
                parts = dict(p.split('=', 1) for p in body.split(' ', 2)[:2] if '=' in p)
                if parts.get('property') == self.prop and 'key' in parts:
                    out[parts['key']] = body.split(' ', 2)[2] if len(body.split(' ', 2)) > 2 else ''
        return out

    @staticmethod
    def key(o):
        return (o['rule'] + '|' + o['instance']).replace(' ', '_')

    # -- finishing --------------------------------------------------------------
    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            tier = 'thorough'
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
        known = self.known()
        seen, viol, kf = set(), [], []
        for o in self.obs:
            if o['status'] == 'violation':
                k = self.key(o)
                if k in known:
                    o['status'] = 'known-finding'
                    if k not in seen:
                        kf.append((k, known[k]))
                elif k not in seen:
                    viol.append(o)
                seen.add(k)
        n = {s: sum(1 for o in self.obs if o['status'] == s) for s in ('ok', 'violation', 'known-finding', 'undecided')}
        byrule = {}
        for o in self.obs:
            r = byrule.setdefault(o['rule'], {'ok': 0, 'violation': 0, 'known-finding': 0, 'undecided': 0})
            r[o['status']] += 1
        ev = {'property': self.prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
              'level': 'other',
              'coverage': {
                  'explanation': f"{self.rule_text} Decided from the syntax trees under {REPO}/pyowc by the owcstatic "
                                 f"value-graph interpreter; no code of the package is imported or run. {self.reach}",
                  'obligations': len(self.obs), 'by_status': n, 'by_rule': byrule, 'analysed': self.analysed,
                  'decided_obligations': [f"{o['status']}: {o['rule']} [{o['instance']}] {o['loc']} {o['detail'][:160]}".strip()
                                          for o in self.obs if o['status'] != 'undecided'][:250],
                  'undecided_obligations': [f"{o['rule']} [{o['instance']}] {o['loc']} {o['detail'][:200]}".strip()
                                            for o in self.obs if o['status'] == 'undecided'][:60]},
              'assumptions': self.assumptions, 'violations': len(viol), 'wall_s': round(time.time() - self.t0, 3)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join('evidence', f'{self.prop}.violation.txt')
        full = os.path.join(VERIF, rp)
        if os.path.exists(full):
            os.remove(full)
        with open(os.path.join(d, f'{self.prop}.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1)
        for k, what in kf:
            print(f"KNOWN-FINDING: property={self.prop} {what or k}")
        print(f"{self.prop} {self.title}: {n['ok']} obligations hold, {len(viol)} violated, "
              f"{n['undecided']} not decided, {n['known-finding']} known")
        if viol:
            with open(full, 'w', encoding='utf-8') as f:
                f.write(f"property {self.prop}: {self.title}\nanalysed: {REPO}\nrule: {self.rule_text}\n\n")
                for o in viol:
                    f.write(f"* {o['loc'] or '(whole program)'}\n  rule {o['rule']}, instance {o['instance']}\n  {o['detail']}\n")
                f.write(f"\nto repeat: cd {VERIF} && python3 check.py {self.prop}\n")
            for o in viol:
                print(f"VIOLATION property={self.prop} replay={rp}")
                print(f"  {o['loc']}: {o['rule']} [{o['instance']}] {o['detail'][:600]}")
            return 1
        if not self.obs:
            print(f"{self.prop}: nothing could be decided")
            return 2
        return 0
