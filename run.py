#!/usr/bin/env python3
"""Decide one property: build its monitor from /repo's working tree, run it, judge what it recorded.

usage: run.py ID        (environment: VERIF_SEED, VERIF_TIER; VH_REPLAY=phase:case repeats one case)
       run.py --setup

Exit 0: held on everything explored.  1: violated (with a VIOLATION line).  2: no verdict.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
REPLAY = os.path.join(HERE, 'replay')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
START = time.time()


class NoVerdict(Exception):
    pass


def env(**more):
    e = dict(os.environ)
    for k in ('RUSTC', 'RUSTFLAGS', 'RUSTDOC', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR', 'CARGO_INCREMENTAL'):
        e.pop(k, None)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.update(RUSTUP_TOOLCHAIN='nightly-2019-01-15', CARGO_HOME=os.path.join(BUILD, 'cargo-home'),
             CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
    e.update(more)
    return e


def prepare():
    for d in (BUILD, EVID, REPLAY, os.path.join(BUILD, 'cargo-home'), os.path.join(BUILD, 'out')):
        os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, 'cargo-home', 'config'), 'w') as f:
        f.write('[source.crates-io]\nreplace-with = "vendored-sources"\n\n'
                '[source.vendored-sources]\ndirectory = "/opt/vp/vendor"\n')


def sh(cmd, what, timeout=600, cwd=HERE, extra=None, ok=(0,)):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env(**(extra or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoVerdict('%s: no end within %d s' % (what, timeout))
    out = r.stdout.decode(errors='replace')
    if ok is not None and r.returncode not in ok:
        raise NoVerdict('%s failed (%d):\n%s' % (what, r.returncode, out[-6000:]))
    return r.returncode, out


def cargo(crate, args, target='target', extra=None, profile='--release', timeout=800):
    """Build part of a crate below /verif; gives the directory of what was built."""
    t = os.path.join(BUILD, target)
    cmd = ['cargo', 'build'] + ([profile] if profile else []) + ['--manifest-path', os.path.join(HERE, crate, 'Cargo.toml')]
    sh(cmd + args, 'building %s %s' % (crate, ' '.join(args)), timeout=timeout,
       extra=dict({'CARGO_TARGET_DIR': t}, **(extra or {})))
    return t


def harness_bin(name, crate='harness', target='target', extra=None, features=None, triple=None):
    args = ['--bin', name]
    if features:
        args += ['--features', features]
    if triple:
        args += ['--target', triple]
    t = cargo(crate, args, target, extra)
    return os.path.join(t, triple or '', 'release', name)


class Result:
    """What monitors recorded, put together."""

    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.distinct = 0
        self.rules = []
        self.samples = []
        self.observed = {}
        self.viol = []
        self.errors = []
        self.notes = {}

    def violation(self, sig, detail, phase='', case=0, command=None):
        self.viol.append(dict(sig=sig, detail=detail, phase=phase, case=case, command=command))

    def count(self, name, n, distinct=0):
        self.observed[name] = self.observed.get(name, 0) + n
        self.evaluations += n
        self.distinct += distinct


CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}


def run_monitor(res, argv, timeout=None, extra=None, label=None):
    """Run a monitor which writes JSON lines to VH_OUT."""
    label = label or os.path.basename(argv[0])
    out = os.path.join(BUILD, 'out', '%s-%s.jsonl' % (res.prop, label))
    if os.path.exists(out):
        os.remove(out)
    e = dict(extra or {})
    e.update(VH_OUT=out, VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    timeout = timeout or (780 if THOROUGH else 600)
    err = os.path.join(BUILD, 'out', '%s-%s.err' % (res.prop, label))
    timed_out = False
    with open(err, 'wb') as ef:
        p = subprocess.Popen(argv, env=env(**e), cwd=HERE, stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            rc = p.wait()
    done = None
    if os.path.exists(out):
        for line in open(out, errors='replace'):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r.get('t') == 'viol':
                res.viol.append(dict(sig=r['sig'], detail=r['detail'], phase=r.get('phase', ''), case=r.get('case', 0),
                                     command=argv))
            elif r.get('t') == 'error':
                res.errors.append('%s: %s' % (label, r.get('detail')))
            elif r.get('t') == 'done':
                done = r
    if done:
        res.evaluations += done['evaluations']
        res.distinct += done['distinct']
        if done['rule'] not in res.rules:
            res.rules.append(done['rule'])
        res.samples += done['samples']
        for k, v in done['observed'].items():
            res.observed[k] = res.observed.get(k, 0) + v
        if done.get('stopped_early'):
            res.notes['stopped_at_time_limit'] = True
    tail = open(err, errors='replace').read()[-3000:]
    if timed_out:
        res.errors.append('%s: no end within %d s' % (label, timeout))
    elif rc < 0:
        s = signal.Signals(-rc)
        if s in CRASH:
            res.violation('crash', '%s died of %s; its last words: %s' % (label, s.name, tail), command=argv)
        else:
            res.errors.append('%s was ended by %s' % (label, s.name))
    elif not done and rc != 1:
        res.errors.append('%s ended with %d and no summary: %s' % (label, rc, tail))
    elif not done and not any(True for v in res.viol):
        res.errors.append('%s ended with no summary: %s' % (label, tail))
    return rc


def known_findings(prop):
    """{signature: description} of the recorded, unrepaired findings."""
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def conclude(res, check):
    known = known_findings(res.prop)
    new = [v for v in res.viol if v['sig'] not in known]
    for sig, what in known.items():
        hits = [v for v in res.viol if v['sig'] == sig]
        if hits:
            print('KNOWN-FINDING: property=%s %s (%d times)' % (res.prop, what, len(hits)))
    by_sig = {}
    for v in new:
        by_sig.setdefault(v['sig'], []).append(v)
    cov = dict(evaluations=res.evaluations, distinct_nontrivial=res.distinct, rule=' | '.join(res.rules),
               samples=res.samples[:80], observed=res.observed)
    cov.update(res.notes)
    ev = dict(property=res.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=check['level'],
              coverage=cov, assumptions=check.get('assumptions', []), wall_s=round(time.time() - START, 3),
              violations=len(new))
    if res.errors:
        ev['coverage']['errors'] = res.errors[:20]
    if not os.environ.get('VH_REPLAY'):
        with open(os.path.join(EVID, res.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
    if new:
        for i, (sig, vs) in enumerate(sorted(by_sig.items())[:10]):
            v = vs[0]
            path = os.path.join(REPLAY, '%s-%d.json' % (res.prop, i))
            with open(path, 'w') as f:
                json.dump(dict(property=res.prop, signature=sig, seed=SEED, tier=TIER, times=len(vs),
                               phase=v['phase'], case=v['case'], detail=v['detail'], monitor=v['command'],
                               replay='VERIF_SEED=%d VERIF_TIER=%s %spython3 %s %s' % (
                                   SEED, TIER, 'VH_REPLAY=%s:%s ' % (v['phase'], v['case']) if v['phase'] else '',
                                   os.path.join(HERE, 'run.py'), res.prop)), f, indent=1)
                f.write('\n')
            print('VIOLATION property=%s replay=%s' % (res.prop, path))
            print('  %s: %s' % (sig, v['detail'][:600].replace('\n', '\n  ')))
        return 1
    if res.errors:
        print('NO VERDICT for %s:' % res.prop)
        for e in res.errors[:5]:
            print('  ' + e[:3000])
        return 2
    print('%s held: %d evaluations, %d distinct, %.1f s' % (res.prop, res.evaluations, res.distinct, time.time() - START))
    return 0


def main(argv):
    import checks
    if len(argv) != 2:
        print(__doc__)
        return 2
    prepare()
    if argv[1] == '--setup':
        return 0
    prop = argv[1]
    check = checks.CHECKS[prop]
    res = Result(prop)
    try:
        check['run'](res)
    except NoVerdict as e:
        res.errors.append(str(e))
    return conclude(res, check)


if __name__ == '__main__':
    sys.modules['run'] = sys.modules['__main__']
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.exit(main(sys.argv))
