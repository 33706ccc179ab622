"""Concrete runs of the real code (crate /verif/replay): for a failed obligation, a history that fails; for an
undecided task, a bounded stand-in; and the known findings."""
import os, subprocess, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'replay_target'))
    env.pop('RUSTFLAGS', None)
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked'], cwd=os.path.join(VERIF, 'replay'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return None, p.stdout[-2000:]
    return os.path.join(BUILD, 'replay_target/release/replay'), ''


def call(args, limit):
    p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    try:
        o, _ = p.communicate(timeout=limit)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, ''


def known(prop):
    """entries 'known: property=Cxx NAME text' of known_findings.txt"""
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            w = l.strip().split(' ', 3)
            if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + prop:
                out.append((w[2], w[3]))
    return out


def run(prop, failed, undecided, tier):
    kn = known(prop)
    if not (failed or undecided or kn or tier == 'thorough'):
        return {}
    t0 = time.time()
    exe, err = build()
    if exe is None:
        return dict(coverage=dict(error='the replay crate does not build: ' + err))
    r = dict(known=[], coverage={})
    if kn:
        rc, o = call([exe, prop, '1', '1', 'known'], 60)
        # bq_last_owner is a race of two threads, shown once (DESIGN.md) and not run again here
        r['known'] = [text for name, text in kn if name == 'bq_last_owner' or 'KNOWN ' + name in (o or '').split('\n')]
        r['coverage']['known_findings_replayed'] = r['known']
    if failed or undecided or tier == 'thorough':
        secs = '40' if tier == 'quick' else '200'
        seed = os.environ.get('VERIF_SEED', '1')
        rc, o = call([exe, prop, seed, secs], float(secs) + 130)
        n = [l for l in (o or '').splitlines() if l.startswith('runs=')]
        r['coverage']['bounded'] = 'random histories of at most 44 operations on one channel, one thread, and fixed scenarios, seed %s, %s s: %s' % (seed, secs, n[0] if n else 'stopped')
        i = (o or '').find('FAIL property=')
        if rc == 1 and i >= 0:
            r['violation'] = True
            r['text'] = 'failing input, against the real code (again: %s %s %s %s)\n%s' % (exe, prop, seed, secs, o[i:])
        r['coverage']['seconds'] = round(time.time() - t0, 1)
    return r
