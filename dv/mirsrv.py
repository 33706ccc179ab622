"""Client for the MIR server (mirdrv): types, bodies, instance resolution."""
import json, os, subprocess, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot():
    rc, o = sh(['rustc', '+nightly', '--print', 'sysroot'])
    return o.strip().splitlines()[-1]


class BuildError(Exception):
    pass


def build():
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ)
    env.pop('RUSTFLAGS', None)
    rc, o = sh(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', os.path.join(BUILD, 'drv')],
               cwd=os.path.join(VERIF, 'mirdrv'), env=env)
    if rc:
        raise BuildError('mirdrv does not build:\n' + o[-4000:])
    drv = os.path.join(BUILD, 'drv/release/mirdrv')
    cap = os.path.join(BUILD, 'capture.json')
    env.update(LD_LIBRARY_PATH=sysroot() + '/lib', RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings',
               CARGO_TARGET_DIR=os.path.join(BUILD, 'harness'), RUSTC_WORKSPACE_WRAPPER=drv, MIRDRV_CAPTURE=cap)
    if os.path.exists(cap):
        os.remove(cap)
    # cargo must call the wrapper every time
    os.utime(os.path.join(VERIF, 'vharness/src/lib.rs'))
    rc, o = sh(['cargo', '+nightly', 'check', '--offline', '--locked'], cwd=os.path.join(VERIF, 'vharness'), env=env)
    if rc or not os.path.exists(cap):
        raise BuildError('harness does not build:\n' + o[-6000:])
    return drv, cap


class Server:
    def __init__(self, drv=None, cap=None):
        if drv is None:
            drv, cap = build()
        c = json.load(open(cap))
        env = dict(os.environ)
        env.update(c['env'])
        env.pop('CARGO_MAKEFLAGS', None)
        env.pop('MIRDRV_CAPTURE', None)
        env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
        self.err = open(os.path.join(BUILD, 'server.err'), 'w')
        self.p = subprocess.Popen([drv] + c['args'][1:], cwd=c['cwd'], env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, text=True)
        l = self.p.stdout.readline()
        if not l:
            raise BuildError('MIR server did not start: ' + open(os.path.join(BUILD, 'server.err')).read()[-2000:])
        self.roots = json.loads(l)['roots']
        self._ty, self._body, self._drop, self._cl, self._res = {}, {}, {}, {}, {}
        self.inst_info = {}
        for r in self.roots.values():
            self.inst_info[r['inst']] = r

    def q(self, **k):
        self.p.stdin.write(json.dumps(k) + '\n')
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise RuntimeError('MIR server died on %r' % (k,))
        return json.loads(l)

    def ty(self, t):
        r = self._ty.get(t)
        if r is None:
            r = self.q(cmd='ty', ty=t)
            r['id'] = t
            self._ty[t] = r
        return r

    def body(self, inst):
        r = self._body.get(inst)
        if r is None:
            r = self.q(cmd='body', inst=inst)
            self._body[inst] = r
            if 'calls' in r:
                for c in list(r['calls'].values()) + list(r['drops'].values()):
                    if 'inst' in c:
                        self.inst_info.setdefault(c['inst'], c)
        return r

    def drop(self, t):
        r = self._drop.get(t)
        if r is None:
            r = self._drop[t] = self.q(cmd='drop', ty=t)
            self.inst_info.setdefault(r['inst'], r)
        return r

    def closure(self, t, ck):
        r = self._cl.get((t, ck))
        if r is None:
            r = self._cl[(t, ck)] = self.q(cmd='closure', ty=t, ck=ck)
            if 'inst' in r:
                self.inst_info.setdefault(r['inst'], r)
        return r

    def resolve(self, path, args):
        k = (path, tuple(args))
        r = self._res.get(k)
        if r is None:
            r = self._res[k] = self.q(cmd='resolve', path=path, args=list(args))
            for i in r:
                self.inst_info.setdefault(i['inst'], i)
        return r

    def names(self, prefix):
        return self.q(cmd='names', prefix=prefix)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()

    # ---- pretty printing (debugging)
    def tys(self, t):
        i = self.ty(t)
        return i.get('s') or i['k'] + (('(' + ','.join(self.tys(x) for x in i['tys']) + ')') if i['k'] == 'Tuple' else '') + (i.get('w') or '') + ((' ' + self.tys(i['ty'])) if 'ty' in i else '')


def fmt_place(p):
    s = '_%d' % p['local']
    for e in p['projection']:
        if e == 'Deref':
            s = '(*%s)' % s
        elif 'Field' in e:
            s += '.%d' % e['Field'][0]
        elif 'Downcast' in e:
            s = '(%s as v%d)' % (s, e['Downcast'])
        else:
            s += '[%s]' % json.dumps(e)
    return s


def fmt_const(c):
    k = c['const_']['kind']
    if k == 'ZeroSized':
        return 'zst:%d' % c['const_']['ty']
    if isinstance(k, dict) and 'Allocated' in k:
        a = k['Allocated']
        return 'const:%d%s%s' % (c['const_']['ty'], a['bytes'] if len(a['bytes']) < 20 else '[..]', a['provenance']['ptrs'] or '')
    return 'const ' + json.dumps(k)[:80]


def fmt_op(o):
    if not isinstance(o, dict):
        return str(o)
    if 'Copy' in o:
        return fmt_place(o['Copy'])
    if 'Move' in o:
        return 'move ' + fmt_place(o['Move'])
    if 'Constant' in o:
        return fmt_const(o['Constant'])
    return json.dumps(o)[:100]


def fmt_rv(r):
    if not isinstance(r, dict):
        return str(r)
    k, v = next(iter(r.items()))
    if k == 'Use':
        return fmt_op(v if not isinstance(v, list) else v[0])
    if k == 'Ref':
        return '&%s %s' % (v[1] if isinstance(v[1], str) else 'mut', fmt_place(v[2]))
    if k == 'AddressOf':
        return '&raw %s' % fmt_place(v[1])
    if k in ('Discriminant', 'CopyForDeref', 'Len'):
        return '%s(%s)' % (k, fmt_place(v))
    if k == 'Aggregate':
        return 'Agg %s (%s)' % (json.dumps(v[0])[:60], ', '.join(map(fmt_op, v[1])))
    if k == 'Cast':
        return 'Cast %s %s -> %s' % (v[0], fmt_op(v[1]), v[2])
    if k in ('BinaryOp', 'CheckedBinaryOp'):
        return '%s %s(%s, %s)' % (k, v[0], fmt_op(v[1]), fmt_op(v[2]))
    if k == 'UnaryOp':
        return '%s(%s)' % (v[0], fmt_op(v[1]))
    return json.dumps(r)[:120]


def dump(s, inst):
    b = s.body(inst)
    if 'err' in b:
        return 'ERR %r' % b
    out = ['fn %s  nargs=%d' % (b['name'], b['nargs'])]
    for i, t in enumerate(b['locals']):
        out.append('  let _%d: %s' % (i, s.tys(t)))
    for i, bb in enumerate(b['blocks']):
        out.append(' bb%d:' % i)
        for st in bb['statements']:
            k = st['kind']
            if isinstance(k, str) or 'StorageLive' in k or 'StorageDead' in k:
                if isinstance(k, dict):
                    out.append('    ' + json.dumps(k))
                continue
            if 'Assign' in k:
                out.append('    %s = %s' % (fmt_place(k['Assign'][0]), fmt_rv(k['Assign'][1])))
            else:
                out.append('    ' + json.dumps(k)[:150])
        t = bb['terminator']['kind']
        if isinstance(t, str):
            out.append('    ' + t)
            continue
        k, v = next(iter(t.items()))
        if k == 'Call':
            c = b['calls'].get(str(i), {})
            out.append('    %s = CALL %s [%s #%s %s](%s) -> %s' % (fmt_place(v['destination']), c.get('name'), c.get('kind'), c.get('inst'), c.get('src') if c.get('src') != c.get('def') else '', ', '.join(map(fmt_op, v['args'])), v['target']))
        elif k == 'Drop':
            c = b['drops'].get(str(i), {})
            out.append('    DROP %s : %s [#%s empty=%s] -> %s' % (fmt_place(v['place']), s.tys(c['ty']), c['inst'], c['empty'], v['target']))
        elif k == 'SwitchInt':
            out.append('    SWITCH %s %s' % (fmt_op(v['discr']), json.dumps(v['targets'])))
        elif k == 'Assert':
            out.append('    ASSERT %s == %s -> %s' % (fmt_op(v['cond']), v['expected'], v['target']))
        else:
            out.append('    ' + json.dumps(t))
    return '\n'.join(out)
