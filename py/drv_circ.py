"""Replays circuit behaviours (generated by spec/CircGen.tla) on pyRFtk.

usage: drv_circ.py IN.ndjson OUT.ndjson
IN : one behaviour per line {"id":.., "seed":.., "variant": "plain|scr|log", "ops":[..]}
OUT: one line per behaviour {"id":.., "ev":[..]} with concrete values and outcomes.
"""
import sys, json, re
from common import *
rf = load()
from pyRFtk import config
from pyRFtk import scaleVSW

FREQS = ["0.0", "20000000.0", "20000150.0", "37500000.0", "55000000.0", "81000000.0"]


def cplx(g, mag=1.0):
    return complex(rsig(g.normal() * mag), rsig(g.normal() * mag))


def randS(g, n, lossless, rec):
    A = g.normal(size=(n, n)) + 1j * g.normal(size=(n, n))
    if lossless:
        Q, _ = np.linalg.qr(A)
        return Q @ Q.T if rec else Q
    if rec:
        A = A + A.T
    return A / np.linalg.norm(A, 2) * float(g.uniform(0.4, 0.92))


def leaf(op, g):
    """concrete parameters of a new leaf object"""
    kind, ll, rec = op['kind'], op['ll'], op['rec']
    zb = float(g.choice([50., 50., 30., 75., 12.5]))
    xpos = [rsig(g.uniform(-1, 3), 3) for _ in range(op['np'])] if op['cx'] else None
    d = dict(zb=R(zb), p={}, tab={}, kw={})
    kw = {}
    if kind == 'rlc':
        P = {}
        shape_ = int(g.integers(0, 5))
        P['Rs'] = 0. if ll else rsig(g.uniform(0.5, 20))
        if shape_ in (0, 1, 4):
            P['Ls'] = rsig(g.uniform(5e-9, 2e-7))
        if shape_ in (1, 2):
            P['Cs'] = rsig(g.uniform(2e-11, 5e-10))
        if shape_ in (2, 3, 4):
            P['Cp'] = rsig(g.uniform(5e-12, 2e-10))
        if shape_ == 3:
            P['Lp'] = rsig(g.uniform(2e-8, 4e-7))
        if not ll and g.random() < .5:
            P['Rp'] = rsig(g.uniform(40, 900))
        kw = dict(P, Zbase=zb)
        full = dict(Rs=0., Ls=0., Cs=np.inf, Rp=np.inf, Lp=np.inf, Cp=0.)
        full.update(P)
        d['p'] = {k: R(v) for k, v in full.items()}
        x = [0., 0.] if xpos is None else xpos
    elif kind == 'trl':
        P = dict(L=rsig(g.uniform(0.1, 4.)))
        if g.random() < .5:
            P['Z0TL'] = rsig(g.uniform(15, 90))
            if g.random() < .5:
                P['vr'] = rsig(g.uniform(0.5, 1.))
        else:
            P['LTL'] = rsig(g.uniform(1e-7, 4e-7))
            P['CTL'] = rsig(g.uniform(4e-11, 1.5e-10))
        if not ll and 'LTL' in P:
            P['rTL'] = rsig(g.uniform(0.1, 4.))
            if g.random() < .5:
                P['gTL'] = rsig(g.uniform(1e-4, 1e-3))
        kw = dict(P, Zbase=zb)
        d['p'] = {k: R(v) for k, v in P.items()}
        x = [0., P['L']]
        if xpos is not None:
            x = [xpos[0], None]
            xpos = xpos[0]
    elif kind == 'cpl':
        kc = rsig(g.uniform(0.2, 0.9))
        f0 = rsig(g.uniform(2e7, 9e7))
        any_ = g.random() < .25
        kw = dict(kc=kc, Zbase=zb)
        if not any_:
            kw['f0Hz'] = f0
        d['p'] = dict(kc=R(kc), f0='any' if any_ else R(f0))
        x = [0.] * 4 if xpos is None else xpos
    elif kind == 'arc':
        L = rsig(g.uniform(5e-9, 1e-7))
        kw = dict(Larc=L, Zbase=zb)
        d['p'] = dict(Larc=R(L))
        x = [0.] if xpos is None else xpos
    elif kind in ('tab', 'base'):
        Ss = [randS(g, op['np'], ll, rec) for _ in FREQS]
        d['tab'] = {f: M(S) for f, S in zip(FREQS, Ss)}
        kw = dict(Zbase=zb)
        d['Ss'] = Ss
        x = [0.] * op['np'] if xpos is None else xpos
    elif kind == 'arr':
        S = randS(g, op['np'], ll, rec)
        d['tab'] = {'*': M(S)}
        d['Ss'] = [S]
        x = [0.] * op['np']
        xpos = None
    if xpos is not None:
        kw['xpos'] = xpos
    if op['ports'] and (op['cp'] or kind in ('tab', 'base', 'arc')):
        kw['ports'] = list(op['ports'])
    d['kw'] = kw
    if kind == 'trl' and x[1] is None:
        d['xpos'] = [[R(x[0])], [R(x[0]), R(kw['L'])]]
    elif kind == 'trl':
        d['xpos'] = [['0.0'], ['0.0', R(kw['L'])]]
    else:
        d['xpos'] = [[R(v)] for v in x]
    return d


def build_leaf(op, d, A):
    kind, kw = op['kind'], dict(d['kw'])
    for k in ('ports', 'xpos'):
        if isinstance(kw.get(k), list):
            A(k, kw[k])
    if kind == 'rlc':
        return rf.rfRLC(**kw)
    if kind == 'trl':
        return rf.rfTRL(**kw)
    if kind == 'cpl':
        return rf.rfCoupler(**kw)
    if kind == 'arc':
        return rf.rfArcObj(**kw)
    if kind == 'base':
        return rf.rfBase(Ss=A('Ss', np.array(d['Ss'])), fs=A('fs', np.array([float(f) for f in FREQS])), **kw)
    if kind == 'tab':
        o = rf.rfObject(**kw)
        if op['r'] % 2:
            o.setS(A('fs', [float(f) for f in FREQS]), A('S', np.array(d['Ss'])))
        else:
            for k in ([2, 0, 5, 4, 3, 1] if op['r'] % 4 else range(len(FREQS))):
                o.setS(float(FREQS[k]), A(f'S{k}', np.array(d['Ss'][k])))
        return o
    if kind == 'arr':
        return np.array(d['Ss'][0])


# -- model files -------------------------------------------------------------------
RANGE = dict(L=(.1, 4.), Z0TL=(15, 90), vr=(.5, 1.), LTL=(100, 400), CTL=(40, 150), rTL=(.1, 4.), gTL=(1e-4, 1e-3),
             ID=(20, 90), OD=(1.4, 3.), rho=(.01, .4), epsr=(1, 3), Rs=(.5, 20), Ls=(5, 200), Cs=(20, 500),
             Cp=(5, 200), Lp=(20, 400), Rp=(40, 900), Larc=(5, 100))
VARS = ['a', 'b', 'L1', 'LMTL', 'RHO', 'z_0']


def xc(v):
    z = complex(v)
    return dict(k='c', c=[repr(z.real), repr(z.imag)])


def xval(e, env):
    k = e['k']
    if k == 'c': return complex(float(e['c'][0]), float(e['c'][1]))
    if k == 'v': return env[e['v']]
    a = xval(e['a'], env)
    if k == 'sqrt': return a ** .5
    b = xval(e['b'], env)
    return a + b if k == '+' else a - b if k == '-' else a * b if k == '*' else a / b


def xtext(e):
    """the expression as it is written in a model file"""
    k = e['k']
    if k == 'c':
        z = complex(float(e['c'][0]), float(e['c'][1]))
        return repr(z) if z.imag else repr(z.real) if z.real != int(z.real) else str(int(z.real))
    if k == 'v': return e['v']
    if k == 'sqrt': return f'np.sqrt({xtext(e["a"])})'
    side = lambda x: xtext(x) if x['k'] in 'cv' else f'({xtext(x)})'
    return side(e['a']) + k + side(e['b'])


def xfile(e, g):
    """a number, or text"""
    if e['k'] == 'c' and g.random() < .75:
        return eval(xtext(e))
    return xtext(e)


def xmake(v, env, g, lo=0):
    """an expression for about the value v"""
    h = int(g.integers(0, 12))
    r = lambda x: rsig(x, 5)
    if env and h < 5:
        w = sorted(env)[int(g.integers(0, len(env)))]
        x = dict(k='v', v=w)
        if isinstance(v, complex):
            return dict(k='*', a=xc(complex(r((v / env[w]).real), r((v / env[w]).imag))), b=x)
        c = r((v / env[w]).real)
        if h == 0: return dict(k='*', a=xc(c), b=x)
        if h == 1: return dict(k='*', a=x, b=xc(c))
        if h == 2: return dict(k='/', a=xc(r((v * env[w]).real)), b=x)
        if h == 3: return dict(k='+', a=x, b=xc(r((v - env[w]).real)))
        return dict(k='*', a=dict(k='sqrt', a=x), b=xc(r((v / env[w] ** .5).real)))
    if isinstance(v, complex):
        return xc(v)
    if h == 5: return dict(k='+', a=xc(r(v / 3)), b=xc(r(2 * v / 3)))
    if h == 6: return dict(k='-', a=xc(r(2 * v)), b=xc(r(v)))
    return xc(v)


def gtlmodel(op, g, name):
    """values, variables and expressions for a generated model; writes its file"""
    m = copy.deepcopy(op['m'])
    scopes = dict(glo={}, loc={}, arg={})
    env = {}
    for w in [VARS[int(i)] for i in g.permutation(len(VARS))[:int(g.integers(0, 6))]]:
        tgt = rsig(g.uniform(.5, 3.), 4)
        e = xmake(tgt, env, g)
        order = ['arg', 'glo', 'loc']
        eff = order[int(g.integers(0, 3))]
        for s in order[order.index(eff):]:
            if s == eff:
                scopes[s][w] = e
            elif g.random() < .5:
                scopes[s][w] = xmake(rsig(g.uniform(.5, 3.), 4), env, g)
        env[w] = xval(e, env)
    for s in scopes:
        ks = list(scopes[s])
        m[s] = [[ks[int(i)], scopes[s][ks[int(i)]]] for i in g.permutation(len(ks))]
    if op['bad'] == 'cycle':
        m['glo'] += [['cy', dict(k='*', a=xc(2.), b=dict(k='v', v='cz'))]]
        m['loc'] += [['cz', dict(k='*', a=xc(2.), b=dict(k='v', v='cy'))]]
    blocks = {}
    for i, b in enumerate(m['blocks']):
        d = {}
        idv = 1.
        for kv in b['par']:
            lo, hi = RANGE[kv[0]]
            v = rsig(g.uniform(lo, hi), 4)
            if kv[0] in ('ID', 'OD'):
                idv = 50. if kv[0] == 'ID' else idv
                v = 50. if kv[0] == 'ID' else rsig(50. * g.uniform(1.4, 3.), 4)
            kv[1] = xmake(v, env, g)
        if i == 0 and op['bad'] in ('undef', 'cycle'):
            b['par'][0][1] = dict(k='*', a=xc(2.), b=dict(k='v', v='cy' if op['bad'] == 'cycle' else 'undef'))
        items = []
        ports = []
        for p in b['ports']:
            if p['n']:
                ports.append(p['n'])
            elif p['t'] in ('oc', 'sc'):
                ports.append(f'[{p["t"]}]')
            else:
                z = complex(rsig(g.uniform(2, 120), 4), rsig(g.normal() * 40, 4) if g.random() < .6 else 0.)
                v = z if p['t'] == 'Z' else 1 / z if p['t'] == 'Y' else (z - 50.) / (z + 50.)
                v = complex(rsig(v.real, 5), rsig(v.imag, 5))
                p['e'] = xmake(v if v.imag else v.real, env, g)
                ports.append({p['t']: xfile(p['e'], g)})
        if b['pk'] != 'none':
            items.append(('ports' if b['pk'] == 'both' else b['pk'], ports))
        if b['pk'] == 'both':
            items.append(('Portnames', list(ports)))
        for kw, e in b['par']:
            v = xfile(e, g)
            if kw == 'L' and b['lk'] == 'both':
                items += [('L', v), ('length', v)]
            else:
                items.append((b['lk'] if kw == 'L' else b['zk'] if kw == 'Z0TL' else kw, v))
        if b['lk'] == 'both' and 'L' not in [kv[0] for kv in b['par']]:
            items += [('L', 1.), ('length', 1.)]
        if b['pos']:
            b['pos'] = [xmake(rsig(g.uniform(-2, 5), 4), env, g)]
            v = xfile(b['pos'][0], g)
            items += [('relpos', v), ('xpos', v)] if b['xk'] == 'both' else [(b['xk'], v)]
        blocks[b['nm']] = dict(items[int(j)] for j in g.permutation(len(items)))
    rel = {}
    for kv in m['rel']:
        kv[1] = xmake(rsig(g.uniform(-2, 5), 4), env, g)
        rel[kv[0]] = xfile(kv[1], g)
    sec = {'Portnames': m['pn'], 'GTL': blocks}
    if rel:
        sec['relpos'] = rel
    if m['loc'] or g.random() < .3:
        sec['variables'] = {v: xfile(e, g) for v, e in m['loc']}
    key = m['keys'][0]
    os.makedirs(name, exist_ok=True)
    if m['snp']:
        n = len(m['pn'])
        zb = float(g.choice([50., 30.]))
        Ss = [randS(g, n, False, True) for _ in FREQS]
        if n == 2 or g.random() < .5:
            Ss = [randS(g, n, False, False) for _ in FREQS]
        m['snp'] = [dict(zb=R(zb), tab={f: M(S) for f, S in zip(FREQS, Ss)})]
        sec['sNp'] = f'tab.s{n}p'
        with open(os.path.join(name, sec['sNp']), 'w') as f:
            f.write(f'# HZ S RI R {zb}\n')
            for fr, S in zip(FREQS, Ss):
                if n == 2:
                    S = S.T
                rows = [' '.join(f'{float(z.real)!r} {float(z.imag)!r}' for z in row) for row in S]
                f.write(fr + ' ' + (' '.join(rows) if n <= 2 else '\n'.join(rows)) + '\n')
    file = {key: {k: sec[k] for k in [list(sec)[int(j)] for j in g.permutation(len(sec))]}}
    if m['glo'] or g.random() < .3:
        file['variables'] = {v: xfile(e, g) for v, e in m['glo']}
    if g.random() < .3:
        file['OTHER'] = {'Portnames': ['u'], 'GTL': {'T': {'ports': ['u', '[oc]'], 'L': 1., 'Z': 25.}}}
    if op['ext']:
        path = os.path.join(name, 'x.' + ('MOD' if g.random() < .5 else 'mod') + (m['key'] if g.random() < .5 else m['key'].lower()))
    else:
        path = os.path.join(name, 'x.txt')
    if m['exists']:
        import pprint
        with open(path, 'w') as f:
            f.write(('# a model\n' if g.random() < .5 else '') + (repr(file) if g.random() < .5 else pprint.pformat(file)) + '\n')
    return m, {v: xfile(e, g) for v, e in m['arg']}, path


def setval(attr, g):
    lo, hi = dict(Rs=(0.5, 20), Ls=(5e-9, 2e-7), Cs=(2e-11, 5e-10), Rp=(40, 900), Lp=(2e-8, 4e-7),
                  Cp=(5e-12, 2e-10), L=(0.1, 4.), Larc=(5e-9, 1e-7)).get(attr, (1., 2.))
    return rsig(g.uniform(lo, hi))


class Run:
    def __init__(self, b):
        self.seed, self.variant = b['seed'], b['variant']
        self.objs = {}
        self.ops = b['ops']
        self.announce = {op['c']: op['pn'] for op in self.ops if op['k'] == 'announce'}
        self.Args = Args
        self.kept = []

    def g(self, op, salt=0):
        return rng(self.seed, op.get('r', 0), salt)

    def snap(self):
        s = []
        for k, o in self.objs.items():
            if isinstance(o, np.ndarray):
                s.append(dict(id=k, ports=[], xpos=[], np=len(o)))
            else:
                try:
                    n = len(o)
                except Exception:
                    n = -1
                s.append(dict(id=k, ports=[str(p) for p in o.ports],
                              xpos=[R(x) for x in o.xpos], np=n))
        return s

    def level(self, n):
        return [config.logit['DEBUG'], n]

    # -- one operation --------------------------------------------------------
    def step(self, op):
        A = Args()
        ev = dict(op)
        fn = getattr(self, 'do_' + op['k'])
        n0 = getattr(config.ident, 'N', 0)
        k0 = len(getattr(config.logident, 'stack', []))
        res = None
        try:
            with quiet(), limit():
                res = fn(op, ev, A)
            ev['out'] = 'ok'
            ev['exc'] = ''
        except Exception as e:
            ev['out'] = 'exc'
            ev['exc'] = type(e).__name__
            ev['msg'] = str(e)[:160]
        ev['res'] = res if res is not None else {}
        ev['bal'] = (getattr(config.ident, 'N', 0) - n0) + 1000 * (len(getattr(config.logident, 'stack', [])) - k0)
        if ev['out'] == 'exc':
            ev['bal'] = 0
            if hasattr(config.ident, 'N'):
                config.ident.N = n0
            if hasattr(config.logident, 'stack'):
                del config.logident.stack[k0:]
        ev['mut'] = A.changed()
        if self.variant == 'scr':
            A.scribble()
            for x in self.kept:
                scribble(x)
        self.kept = []
        try:
            ev['snap'] = self.snap()
        except Exception as e:
            # what the user holds cannot even be looked at any more
            ev['snap'] = []
            ev.update(out='exc', exc='Snap' + type(e).__name__, msg=str(e)[:160])
        return ev

    def keep(self, x):
        self.kept.append(x)
        return x

    # -- building ---------------------------------------------------------------
    def do_leaf(self, op, ev, A):
        d = leaf(op, self.g(op))
        ev.update(zb=d['zb'], p=d['p'], tab=d['tab'], xpos=d['xpos'])
        o = build_leaf(op, d, A)
        self.objs[op['nid']] = o

    def do_circ(self, op, ev, A):
        kw = dict(Zbase=float(op['zb']), Id=op['Id'])
        ev['pn'] = self.announce.get(op['nid'], [])
        if ev['pn']:
            kw['Portnames'] = A('Portnames', list(ev['pn']))
        self.objs[op['nid']] = rf.rfCircuit(**kw)

    def do_announce(self, op, ev, A):
        pass

    # -- models read from files ---------------------------------------------------
    def do_gtl(self, op, ev, A):
        m, kw, path = gtlmodel(op, self.g(op), f'm{self.seed}_{op["nid"]}_{self.variant}')
        ev['m'] = m
        args = dict(Zbase=float(m['zb']), Id=f'G{op["nid"]}')
        if not op['ext']:
            args['objkey'] = m['key']
        if m['arg']:
            args['variables'] = A('variables', kw)
        self.objs[op['nid']] = rf.rfGTL(path, **args)

    def do_gone(self, op, ev, A):
        p = os.path.abspath(self.objs[op['c']].path2model)
        if p.startswith(os.path.abspath(os.getcwd())) and os.path.exists(p):
            if op['r'] % 2:
                open(p, 'w').write('{}')
            else:
                os.remove(p)

    def do_addblock(self, op, ev, A):
        kw = {}
        pf = op['pf']
        if pf['k'] == 'list':
            kw['ports'] = A('ports', list(pf['l']))
        elif pf['k'] == 'dict':
            kw['ports'] = A('ports', {a: b for a, b in pf['m']})
        elif pf['k'] == 'fmt':
            kw['ports'] = pf['s'] + '%d'
        if op['rp'] != '0.0' or op['r'] % 2:
            kw['relpos'] = float(op['rp'])
        par = []
        if op['par']:
            g = self.g(op, 1)
            par = [[a, R(setval(a, g))] for a, _ in op['par']]
            kw['params'] = A('params', {a: float(v) for a, v in par})
        ev['par'] = par
        self.objs[op['c']].addblock(op['nm'], self.objs[op['o']], **kw)

    def do_connect(self, op, ev, A):
        self.objs[op['c']].connect(*op['pts'])

    def do_terminate(self, op, ev, A):
        g = self.g(op)
        kv = []
        for k, _ in op['kv']:
            re = rsig(g.uniform(2, 120))
            im = rsig(g.normal() * 40)
            if op['real']:
                im = 0.
            if op['ll']:
                re = 0.
                im = im or 17.5
            z = complex(re, im)
            if k == 'Z':
                v = z
            elif k == 'Y':
                v = 1 / z
            elif k == 'RC':
                v = (z - 50.) / (z + 50.)
            else:
                v = 1.
            if op['special'] and not op['ll']:
                v = {'Z': 0., 'Y': 0., 'RC': 1.}.get(k, v)
            if complex(v).imag == 0:
                v = complex(v).real
            kv.append([k, C(v)])
        ev['kv'] = kv
        self.objs[op['c']].terminate(op['pt'], **{
            k: (complex(float(v[0]), float(v[1])) if float(v[1]) else float(v[0])) for k, v in kv})

    def do_deembed(self, op, ev, A):
        i, e = op['int'], op['ext']
        if op['r'] % 2:
            i, e = {a: b for a, b in i}, {a: b for a, b in e}
        else:
            i, e = [tuple(x) for x in i], [tuple(x) for x in e]
        kw = {}
        if i or op['r'] % 3:
            kw['IntPorts'] = A('IntPorts', i)
        if e or op['r'] % 3:
            kw['ExtPorts'] = A('ExtPorts', e)
        self.objs[op['c']].deembed(**kw)

    def do_copy(self, op, ev, A):
        import copy as cp
        o = self.objs[op['o']]
        how = op['r'] % 3
        self.objs[op['nid']] = o.copy() if how == 0 or isinstance(o, np.ndarray) else \
            cp.copy(o) if how == 1 else cp.deepcopy(o)

    def do_replace(self, op, ev, A):
        g, kw = self.g(op, 1), {}
        ev['par'] = [[a, R(setval(a, g))] for a, _ in op['par']]
        if op['par']:
            kw['params'] = A('params', {a: float(v) for a, v in ev['par']})
        self.objs[op['c']].addblock('.'.join(op['path']), self.objs[op['o']], **kw)

    def do_set(self, op, ev, A):
        g = self.g(op)
        as_ = []
        for a in op['as']:
            av = []
            for attr, tok in a['av']:
                v = setval(attr, g)
                near = g.random() < .15        # a little more than before
                if tok == 'same' or near:
                    try:
                        o = self.objs[op['c']]
                        for nm in a['path']:
                            o = o.blocks[nm]['object']
                        w = float(getattr(o, attr))
                        v = w if tok == 'same' else w * (1 + 8e-6) if 0 < w < 1e6 else v
                    except Exception:
                        pass
                av.append([attr, R(v)])
            as_.append(dict(path=a['path'], av=av))
        ev['as'] = as_
        o, form = self.objs[op['c']], op['form']
        if form == 'direct':
            r = o.set(**A('kwargs', {a: float(v) for a, v in as_[0]['av']}))
        else:
            args, kwargs = [], {}
            for a in as_:
                val = {k: float(v) for k, v in a['av']}
                path = a['path']
                if form == 'kw':
                    d = val
                    for nm in reversed(path[1:]):
                        d = {nm: d}
                    kwargs[path[0]] = A('dict', d)
                elif form == 'kwdot':        # dotted keyword
                    kwargs['.'.join(path)] = A('dict', val)
                elif form == 'pairdict':
                    args += ['.'.join(path), A('dict', val)]
                elif form == 'tupledict':
                    args += [('.'.join(path), A('dict', val))]
                elif form == 'pair':
                    for k, v in val.items():
                        args += ['.'.join(path + [k]), v]
                elif form == 'tuple':
                    for k, v in val.items():
                        args += [('.'.join(path + [k]), v)]
                elif form == 'pos2':         # a dict each
                    args += [A('dict', {'.'.join(path): val})]
                elif form == 'mixed' and len(as_) > 1 and a is as_[-1]:
                    kwargs['.'.join(path)] = A('dict', val)
                elif form == 'mixed':
                    args += [('.'.join(path), A('dict', val))]
                elif form == 'pos':          # one positional dict (documented)
                    if not args:
                        args = [{}]
                    for k, v in val.items():
                        args[0]['.'.join(path + [k])] = v
            if form == 'pos':
                A('dict', args[0])
            r = o.set(*args, **kwargs)
        return dict(mod='T' if r else 'F')

    def do_log(self, op, ev, A):
        config.setLogLevel(int(op['lvl']) if op['lvl'].isdigit() else op['lvl'])

    def do_early(self, op, ev, A):
        o = self.objs[op['c']]
        pn = self.announce.get(op['c'], [])
        if pn and set(pn) != set(o.ports):
            if op['r'] % 3 == 0:
                o.maxV(float(op['f']), {p: 1. for p in o.ports})
            else:
                o.getS(float(op['f']) if op['r'] % 2 else [float(op['f'])])

    # -- queries -----------------------------------------------------------------
    def zb(self, op):
        return None if op['zb'] == '' else float(op['zb'])

    def do_getS(self, op, ev, A):
        o = self.objs[op['o']]
        kw = {}
        if op['zb'] != '':
            kw['Zbase'] = float(op['zb'])
        if op['fl']:
            kw['flags'] = A('flags', {k: (v == 'T') for k, v in op['fl']})
        ev['par'] = []
        if op['par']:
            g = self.g(op, 2)
            avs = [[b, [[a, R(setval(a, g))] for a, _ in av]] for b, av in op['par']]
            ev['par'] = avs
            if op['par'][0][0] == '':
                P = {a: float(v) for a, v in avs[0][1]}
            else:
                P = {b: {a: float(v) for a, v in av} for b, av in avs}
            kw['params'] = A('params', P)
        get = o.getSgtl if op['gtl'] else o.getS
        if op['vec'] == 'one':
            S = self.keep(get(float(op['fs'][0]), **kw))
            return dict(shape=shape(S), S=[M(S)])
        fs = [float(f) for f in op['fs']]
        fs = A('fs', fs if op['vec'] == 'list' else np.array(fs))
        S = self.keep(get(fs, **kw))
        S = S if isinstance(S, np.ndarray) else S
        return dict(shape=shape(S), S=[M(s) for s in S], arr='T' if isinstance(S, np.ndarray) else 'F')

    def exc(self, op, ev, o):
        g = self.g(op, 3)
        ports = list(o.ports)
        if op['c'] in self.announce:
            ports = [p for p in self.announce[op['c']] if p in ports]
        E = {p: cplx(g, 10.) for p in ports}
        if op['r'] % 5 == 0 and len(ports) > 1:
            E[ports[-1]] = 0.
        ev['E'] = [[p, C(v)] for p, v in E.items()]
        items = list(E.items())
        if op['r'] % 2:
            items.reverse()
        return dict(items)

    def do_solution(self, op, ev, A):
        o = self.objs[op['c']]
        E = A('E', self.exc(op, ev, o))
        kw = {}
        if op['zb'] != '':
            kw['Zbase'] = float(op['zb'])
        if op['sel'] == 'some':
            kw['nodes'] = A('nodes', list(op['nodes']))
        elif op['sel'] == 'none':
            kw['nodes'] = A('nodes', [])
        r = o.Solution(float(op['f']), E, **kw)
        out = {k: [C(x) for x in v] for k, v in r.items()}
        if self.variant == 'scr':
            r.clear()
        return dict(sol=out)

    def do_solve(self, op, ev, A):
        o = self.objs[op['c']]
        E = A('E', self.exc(op, ev, o))
        o.solve(float(op['f']), E, *([] if op['zb'] == '' else [float(op['zb'])]))
        return {}

    def do_maxV(self, op, ev, A):
        o = self.objs[op['c']]
        E = A('E', self.exc(op, ev, o))
        kw = {}
        if op['zb'] != '':
            kw['Zbase'] = float(op['zb'])
        if op['Id']:
            kw['Id'] = op['Id']
        vmax, where, tree = o.maxV(float(op['f']), E, **kw)
        def walk(path, t, ents):
            if isinstance(t, dict):
                for k, v in t.items():
                    walk(path + [str(k)], v, ents)
            elif isinstance(t, tuple) and len(t) == 2 and hasattr(t[0], '__iter__'):
                xs, vs = list(t[0]), list(t[1])
                n = len(xs)
                ks = list(range(n)) if n <= 9 else sorted({0, 1, n // 4, n // 3, n // 2, (2 * n) // 3, (3 * n) // 4, n - 2, n - 1})
                ents.append(dict(path='/'.join(path), t='line', n=n, nv=len(vs),
                                 xs=[R(xs[k]) for k in ks], vs=[R(vs[k]) for k in ks if k < len(vs)],
                                 vmax=R(max(float(abs(v)) for v in vs))))
            else:
                ents.append(dict(path='/'.join(path), t='val', n=1, nv=1, xs=[], vs=[R(t)], vmax=R(t)))
        def entries():
            ents = []
            for v in tree.values():
                walk([], v, ents)
            return ents
        ents, scaled = entries(), []
        for e in ents:
            e['tok'] = e['path'].split('/')[-1].split('.')
        if op['sc']:
            try:
                scaleVSW(tree, float(op['sc']))
            except (TypeError, ValueError, KeyError):
                pass
            else:
                scaled = entries()
        return dict(scaled=scaled, vmax=R(vmax), where=str(where), ents=ents, roots=[str(k) for k in tree],
                    wparts=[w for w in str(where).replace('@', ' ').replace(':', ' ').replace('.', ' ').split()])

    def do_nav(self, op, ev, A):
        o = self.objs[op['c']]
        path = '.'.join(op['path'])
        found = o.findObj(path)
        try:
            obj = o.object(path)
            how = 'same' if obj is found else 'another'
        except (KeyError, AttributeError):
            how = 'refused'
        res = dict(list=[str(x) for x in o.listBlocks()], len=len(o), object=how,
                   found='none' if found is None else 'object', mine=0, S=[])
        if found is not None:
            res['mine'] = ([k for k, x in self.objs.items() if x is found] + [0])[0]
            try:
                if isinstance(found, np.ndarray):
                    res['S'] = M(found)
                else:
                    kw = {} if op['zb'] == '' else dict(Zbase=float(op['zb']))
                    res['S'] = M(self.keep(found.getS(float(op['f']), **kw)))
            except Exception as e:
                res['S'] = []
        res['pos'] = [R(o.getpos('.'.join(p + [n]))) for p, n in op['nodes']]
        return res

    def do_show(self, op, ev, A):
        o = self.objs[op['o']]
        text = str(o) if op['how'] == 'str' else o.asstr(op['full']) if hasattr(o, 'asstr') else o.__str__(op['full'])
        res = dict(what='other', ports=[], blocks=[], dup=[])
        if isinstance(o, rf.rfGTL):
            res['what'] = 'model'
            for ln in text.split('\n'):
                if ln.startswith('|  Zbase'):
                    break
                m = re.match(r'\|   (\S+) *: (\S+)m$', ln)
                if m:
                    res['ports'].append(m[1])
                    res['blocks'].append(['', [[m[1], '', R(float(m[2]))]]])
            return res
        if not isinstance(o, rf.rfCircuit):
            return res
        res['what'] = 'full' if op['how'] != 'str' and op['full'] else 'brief'
        lines, inp, inb = text.split('\n'), False, False
        for ln in lines:
            if ln == '| ports: [':
                inp = True
            elif inp and ln == '| ]':
                inp = False
            elif inp:
                res['ports'] += ln[1:].split()
            elif re.match(r'\+ \d+ Blocks:$', ln):
                inb = True
            elif inb:
                m = re.match(r'\|   (\S+): $', ln)
                if m:
                    res['blocks'].append([m[1], []])
                    continue
                m = re.match(r'\|   \|   (\S+) +(?:-> (\S+) +)?@ +(\S+)m$', ln)
                if m and res['blocks']:
                    res['blocks'][-1][1].append([m[1], m[2] or '', R(float(m[3]))])
                    continue
                m = re.match(r'\|   (\S+) *: --> (\S+) at', ln)
                if m:
                    res['dup'].append([m[1], m[2]])
        return res

    def do_intS(self, op, ev, A):
        o = self.objs[op['c']]
        kw = {}
        if op['zb'] != '':
            kw['Zbase'] = float(op['zb'])
        S = self.keep(o.Get_internalSmatrix(float(op['f']), A('nodes', list(op['nodes'])), **kw))
        return dict(S=M(S))


def run(b):
    if hasattr(config.ident, 'N'):
        config.ident.N = 0
    config.setLogLevel('DEBUG' if b['variant'] == 'log' else 'CRITICAL')
    r = Run(b)
    evs = []
    for op in b['ops']:
        if b['variant'] == 'log' and op['k'] == 'log':
            # in the all-DEBUG run level changes are skipped
            op = dict(op, lvl='DEBUG')
        evs.append(r.step(op))
        if evs[-1]['out'] == 'exc' and (evs[-1]['k'] in ('leaf', 'circ', 'copy') or evs[-1]['exc'][:4] in ('Hang', 'Snap')):
            break
    config.setLogLevel('CRITICAL')
    return evs


def main():
    import logging
    # DEBUG records are produced in full but kept out of the file system
    config.tLogger.propagate = False
    config.tLogger.addHandler(logging.NullHandler())
    with open(sys.argv[1]) as fi, open(sys.argv[2], 'w') as fo:
        for line in fi:
            if len(HUNG) >= 2:
                break
            b = json.loads(line)
            evs = run(dict(b, variant='plain'))
            if b['variant'] != 'plain':
                alt = run(b)
                for k, e in enumerate(evs):
                    a = alt[k] if k < len(alt) else {}
                    e['alt'] = {x: a.get(x, '') for x in ('out', 'exc', 'res', 'snap', 'bal', 'mut')}
            fo.write(json.dumps(dict(id=b['id'], seed=b['seed'], variant=b['variant'], ev=evs)) + '\n')


if __name__ == '__main__':
    main()
