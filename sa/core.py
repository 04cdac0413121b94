"""Obligation bookkeeping, evidence, known findings, exit codes."""
import json, os, pickle, select, sys, time, traceback
from program import Program, AnalysisError, VERIF, REPO

EVID = os.path.join(VERIF, 'evidence')


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obs = []           # (rule, subject, ok, where, detail)
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self._p = None

    @property
    def p(self):
        if self._p is None:
            from harness import init_enums
            self._p = Program()
            init_enums(self._p)
        return self._p

    def ob(self, rule, subject, ok, where='', detail=''):
        """one obligation: `rule` must hold for `subject` (a construct of the analysed program)"""
        self.obs.append((rule, subject, bool(ok), where, detail))
        return bool(ok)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, got, least):
        """the rule must have at least `least` instances, else the analysis has lost its anchors"""
        if got < least:
            raise AnalysisError('%s: only %d instances of %s, at least %d were confirmed by hand' % (self.pid, got, name, least))
        self.counts[name] = got

    def pmap(self, func, items, jobs=8):
        """func(context, item) for all items in forked processes; obligations and counts are merged in order"""
        self.p
        todo = list(enumerate(items))
        running, done = {}, {}
        while todo or running:
            while todo and len(running) < jobs:
                i, it = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        os.close(r)
                        c = Ctx(self.pid, self.tier)
                        c._p = self._p
                        try:
                            func(c, it)
                            res = ('ok', c.obs, c.counts, c.assumptions)
                        except AnalysisError as e:
                            res = ('err', str(e), c.obs)
                        except BaseException:
                            res = ('exc', traceback.format_exc(), c.obs)
                        with os.fdopen(w, 'wb') as fh:
                            pickle.dump(res, fh)
                        rc = 0
                    finally:
                        os._exit(rc)
                os.close(w)
                running[r] = (i, pid, [])
            for r in select.select(list(running), [], [])[0]:
                d = os.read(r, 1 << 20)
                i, pid, buf = running[r]
                if d:
                    buf.append(d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                done[i] = pickle.loads(b''.join(buf)) if buf else ('exc', 'a worker died')
        err = None
        for i in sorted(done):
            r = done[i]
            if r[0] != 'ok':
                err = err or (AnalysisError(r[1]) if r[0] == 'err' else RuntimeError(r[1]))
                if len(r) > 2:
                    self.obs.extend(r[2])
                continue
            self.obs.extend(r[1])
            for k, v in r[2].items():
                self.counts[k] = self.counts.get(k, 0) + v
            for a in r[3]:
                self.assume(a)
        if err:
            raise err

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)


KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known():
    """lines `known: property=<id> rule=<r> subject=<s> what=<text>`; `fixed:` lines suppress nothing"""
    import re
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) rule=<(.*?)> subject=<(.*?)> what=(.*)$', line.strip())
            if m:
                out.append({'property': m.group(1), 'rule': m.group(2), 'subject': m.group(3), 'what': m.group(4), 'status': 'known'})
    return out


def merge_obs(obs):
    """obligations with the same rule and subject are one obligation; it is discharged when all its parts are"""
    d = {}
    for r, s, ok, w, det in obs:
        k = (r, s)
        if k not in d or (d[k][2] and not ok):
            d[k] = (r, s, ok, w, det)
    return list(d.values())


def main(pid, tier, func, rule_text, seed):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    ctx = Ctx(pid, tier)
    try:
        func(ctx)
        if not ctx.obs:
            raise AnalysisError('%s: no obligation was generated' % pid)
    except Exception as e:
        if isinstance(e, AnalysisError):
            print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        else:
            traceback.print_exc()
            print('ANALYSIS-ERROR property=%s internal error' % pid)
        if all(o[2] or any(k['property'] == pid and k['rule'] == o[0] and k['subject'] == o[1] for k in known()) for o in ctx.obs):
            return 2
        # what was found before the analysis gave up stands
    obs = merge_obs(ctx.obs)
    kf = [k for k in known() if k.get('property') == pid and k.get('status') == 'known']
    bad = [o for o in obs if not o[2]]
    listed, new = [], []
    for o in bad:
        hit = None
        for k in kf:
            if k['rule'] == o[0] and k['subject'] == o[1]:
                hit = k
        (listed if hit else new).append((o, hit))
    for o, k in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': dict({
            'explanation': rule_text,
            'obligations': len(obs),
            'discharged': len(obs) - len(bad),
            'rules': sorted({o[0] for o in obs}),
            'samples': [{'rule': o[0], 'subject': o[1], 'where': o[3], 'holds': o[2]} for o in obs[:12]],
        }, **{k.replace(' ', '_'): v for k, v in ctx.counts.items()}),
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    if ctx._p is not None:
        ev['coverage']['analysed_units'] = len(ctx._p.units)
        ev['coverage']['functions_in_program'] = len(ctx._p.fns)
    tmp = os.path.join(EVID, pid + '.json.tmp')
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.rename(tmp, os.path.join(EVID, pid + '.json'))
    print('%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)' % (
        pid, len(obs), len(obs) - len(bad), len(listed), len(new), time.time() - t0))
    if not new:
        rp = os.path.join(EVID, pid + '.violation.txt')
        if os.path.exists(rp):
            os.unlink(rp)
        return 0
    rp = os.path.join(EVID, pid + '.violation.txt')
    with open(rp, 'w') as fh:
        for (r, s, ok, w, det), _ in new:
            fh.write('%s\n  rule    : %s\n  subject : %s\n  detail  : %s\n\n' % (w, r, s, det))
    for (r, s, ok, w, det), _ in new[:10]:
        print('  %s: [%s] %s: %s' % (w, r, s, str(det)[:600]))
    print('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1
