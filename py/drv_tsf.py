"""Replays spec/TsfGen.tla: touchstone texts written by hand or by the library's writers
(rfBase.tsf2str, write_tsf, WriteTSF), read by ReadTSF, rfObject and rfTRL."""
from runner import *
import shutil, tempfile
from pyRFtk import rfObject, rfTRL, rfRLC, rfCircuit, rfCoupler, rfArcObj, ReadTSF, WriteTSF
from pyRFtk.rfBase import rfBase
UNIT = dict(HZ=1., KHZ=1e3, MHZ=1e6, GHZ=1e9)
SHOW = dict(HZ='Hz', KHZ='kHz', MHZ='MHz', GHZ='GHz')
WORDS = ['a', 'b10', 'b9', 'gen', 'Ant', 'x_1', '01', 'zz', 'B', 'left', 'T1.in', 'p q']
NOISE = ['! a comment', '!another 1 2 3', '!', '! # MHZ S RI R 3', '!! twice', '! words 1 2']


def zother(g):
    return rsig(float(g.uniform(10, 120)), 4) if g.random() < .8 else int(g.integers(10, 100))


def mat(g, n):
    X = g.normal(size=(n, n)) + 1j * g.normal(size=(n, n))
    S = np.round(X / (1 + np.linalg.norm(X, 2)) * 1.02, 6)
    if g.random() < .2:
        S[int(g.integers(0, n)), int(g.integers(0, n))] = 0
    return S


def grid(g, how, m):
    if how == 'even':
        return [float(x) for x in 1e6 * rsig(float(g.uniform(20, 60)), 3) + np.arange(m) * 1e6 * int(g.integers(1, 4))]
    if how == 'odd':
        f = 1e6 * rsig(float(g.uniform(20, 60)), int(g.integers(2, 8)))
        return [float(round(f + k * 1e6, 3)) for k in range(m)]
    if how == 'fine':
        f = float(int(g.integers(20000000, 60000000)))
        return [f + float(x) for x in np.cumsum([0] + [[1., 10., 1e6, 250.][int(g.integers(0, 4))] for _ in range(m - 1)])]
    return sorted(float(10 ** g.uniform(3, 9.7)) for _ in range(m))


def tokens(s):
    """option items, port names, special lines and rows of numbers of a touchstone text"""
    t = dict(opts=[], ports=[], rows=[], special={}, n=0)
    for l in s.splitlines():
        l = l.strip()
        if l.startswith('!PORTS '):
            t['ports'] = [p.strip() for p in l[7:].split(',')]
        elif l.startswith('#'):
            t['opts'] = l[1:].split('!')[0].upper().split()
        elif l and l[0] != '!':
            w = l.split('!')[0].split()
            if len(w) % 2:
                t['rows'].append(dict(f=w[0], w=w[1:], zc=[], gm=[]))
            else:
                t['rows'][-1]['w'] += w
    return t


class Tsf(Runner):
    def __init__(self, b):
        super().__init__(b)
        self.root = tempfile.mkdtemp(prefix='verif-tsf-')
        self.texts, self.os = [], []

    def close(self):
        shutil.rmtree(self.root)

    # -- by hand ---------------------------------------------------------------
    def do_hand(self, op, ev, A):
        s, t = self.hand(op, self.g(op))
        self.texts.append((s, t))
        return dict(text=t)

    def hand(self, op, g):
        n, m, fmt, typ = op['n'], op['m'], op['fmt'], op['typ']
        num = dict(repr=lambda x: repr(float(x)), exp=lambda x: '%.12E' % x, int=lambda x: '%.4g' % x)[op['num']]
        zr = [zother(g) for _ in range(n)] if op['ref'] == 'many' else [zother(g)]
        unit, fm, ty = op['unit'], op['fmt'], op['typ']
        items = [[unit], [ty], [fm], (['R'] + [str(z) for z in zr]) if op['ref'] != 'none' else []]
        if op['omit']:          # what is the default anyway need not be said
            items = [i for i in items if i not in (['GHZ'], ['S'], ['MA'])]
        items = [items[int(i)] for i in g.permutation(len(items))] if op['order'] > 1 else items
        opts = [x for i in items for x in i]
        case = dict(upper=str.upper, lower=str.lower, mixed=str.title)[op['case']]
        rows = []
        fs = sorted(10 ** g.uniform(6, 9.5) for _ in range(m))
        for f in fs:
            S = mat(g, n)
            if op['num'] == 'int':
                S = np.round(S, 2)
            X = S
            if typ != 'S':
                z0, I = float(zr[0]), np.identity(n)
                X = z0 * np.linalg.solve(I - S, I + S) if typ == 'Z' else np.linalg.solve(I + S, I - S) / z0
            if n == 2:
                X = X.T
            w = []
            for x in X.flatten():
                a = dict(RI=(x.real, x.imag), MA=(abs(x), np.angle(x, deg=True)),
                         DB=(20 * np.log10(max(abs(x), 1e-10)), np.angle(x, deg=True)))[fmt]
                w += [num(a[0]), num(a[1])]
            r = dict(f=num(f / UNIT[unit]), w=w, zc=[], gm=[])
            if op['zc'] != 'no':
                r['zc'] = [C(rsig(float(g.uniform(10, 120)), 5) + (1j * rsig(float(g.uniform(-9, 9)), 3) if op['zc'] != 'real' else 0)) for _ in range(n)]
                r['gm'] = [C(rsig(float(g.uniform(0, 1)), 3) + 1j * rsig(float(g.uniform(0, 9)), 3)) for _ in range(n)]
            rows.append(r)
        sep = dict(plain=' ', wide='    ', tabs='\t', crlf=' ', tight=' ')[op['sp']]
        lead = dict(plain='', wide='   ', tabs='\t', crlf='', tight='')[op['sp']]
        noise = lambda p: [NOISE[int(g.integers(0, len(NOISE)))] for _ in range(int(g.integers(1, 3)))] if op['cm'] in p and g.random() < .6 else []
        blank = lambda: [''] if op['sp'] == 'wide' and g.random() < .5 else []
        sp, t = {}, dict(opts=[x.upper() for x in opts], rows=rows, ports=[], n=n)
        L = noise(('head', 'all'))
        pre = []
        if 'ports' in op['special']:
            t['ports'] = [str(x) for x in g.permutation(WORDS)[:n]]
            pre.append('!PORTS ' + ', '.join(t['ports']))
        if 'markers' in op['special']:
            mk = [rsig(float(g.uniform(1e6, 1e8)), 6) for _ in range(int(g.integers(1, 4)))]
            sp['markers'] = [R(x) for x in mk]
            pre.append('!MARKERS ' + ' '.join(repr(x) for x in mk))
        if 'shape' in op['special'] or 'shape1' in op['special']:
            two = 'shape' in op['special']
            sh = [int(g.integers(1, 9)), int(g.integers(1, 9)) if two else 0]
            sp['shape'] = sh
            pre.append('!SHAPE %d' % sh[0] + (' %d' % sh[1] if two else ''))
        for key, a, b in (('part', ['TOP', 'bottom'], ['Left', 'RIGHT']), ('numbering', ['UP', 'down'], ['LEFT', 'Right'])):
            if key in op['special'] or key + '2' in op['special']:
                v = [a[int(g.integers(0, 2))]] + ([b[int(g.integers(0, 2))]] if key + '2' in op['special'] else [])
                sp[key] = [x.lower() for x in v]
                pre.append('!' + key.upper() + ' ' + ' '.join(v))
        if 'rem' in op['special']:
            pre.append('!REM remark 1')
        t['special'] = sp
        pre = [pre[int(i)] for i in g.permutation(len(pre))]
        k = int(g.integers(0, len(pre) + 1))
        L += pre[:k] + noise(('head', 'all')) + blank()
        L.append(lead + '#' + ('' if op['sp'] == 'tight' else sep) + sep.join(case(x) if x[0] not in '0123456789' else x for x in opts)
                 + ('  ! the options' if op['cm'] == 'inline' else ''))
        L += pre[k:] + noise(('head', 'all')) + blank()
        tail = lambda: (sep + '! inline %d' % g.integers(0, 9)) if op['cm'] == 'inline' and g.random() < .7 else ''
        for r in rows:
            pairs = [r['w'][i:i + 2] for i in range(0, len(r['w']), 2)]
            cut = []
            if op['wrap'] == 'one':
                cut = [pairs]
            elif op['wrap'] == 'pairs':
                cut = [[p] for p in pairs]
            elif op['wrap'] == 'ragged':
                while pairs:
                    q = int(g.integers(1, 5))
                    cut.append(pairs[:q])
                    pairs = pairs[q:]
            else:
                step = 4 if op['wrap'] == 'std4' else n
                for i in range(n):
                    row = pairs[i * n:(i + 1) * n]
                    cut += [row[j:j + step] for j in range(0, n, step)]
                if n == 2 and op['wrap'] == 'std':
                    cut = [cut[0] + cut[1]]
            for i, c in enumerate(cut):
                L.append(lead + (r['f'] + sep if i == 0 else sep * 2) + sep.join(x for p in c for x in p) + tail())
            L += noise(('all',)) + blank()
            if r['zc']:
                for key, v in (('Gamma !', r['gm']), ('Port Impedance', r['zc'])):
                    flat = [x for p in v for x in p]
                    if op['zc'] == 'full':
                        flat = [x for i in range(n) for j in range(n) for x in (v[i] if i == j else ['0', '0'])]
                    per = 2 * (n if g.random() < .5 else 2)
                    for i in range(0, len(flat), per):
                        L.append(('! %s ' % key if i == 0 else '!     ') + ' '.join(flat[i:i + per]))
                L += noise(('all',)) + blank()
        nl = '\r\n' if op['sp'] == 'crlf' else '\n'
        return nl.join(L) + (nl if g.random() < .7 else ''), t

    # -- objects and writers -----------------------------------------------------
    def do_make(self, op, ev, A):
        g, n, kind = self.g(op), op['n'], op['kind']
        zb = zother(g) if op['zb'] else 50.
        fs = grid(g, op['grid'], op['m'])
        if kind in ('rfObject', 'rfBase'):
            Ss = [mat(g, n) for _ in fs]
            ports = [str(x) for x in g.permutation(WORDS)[:n]]
            if kind == 'rfBase':
                ob = rfBase(Ss=np.array(Ss), fs=fs, ports=ports, Zbase=zb)
            else:
                u = UNIT[op['unit']]
                ob = rfObject(ports=ports, Zbase=zb, funit=SHOW[op['unit']])
                ob.setS([f / u for f in fs], Ss)
            own = dict(zip(fs, Ss))
        else:
            fs = [float(f) for f in fs if 1e6 <= f <= 2e8] or [4.1234567e7]
            zl = lambda: rsig(float(g.uniform(15, 90)), 4)
            trl = lambda p: rfTRL(L=rsig(float(g.uniform(.2, 2)), 4), Z0TL=zl(), Zbase=zb, ports=p)
            ps = [str(x) for x in g.permutation(WORDS)[:4]]
            if kind == 'rfTRL':
                ob = trl(ps[:2])
            elif kind == 'rfRLC':
                ob = rfRLC(Rs=zl(), Cp=3e-11, Zbase=zb, ports=ps[:2])
            elif kind == 'rfCoupler':
                ob = rfCoupler(f0Hz=4e7, C=-6., Zc=zl(), Zbase=zb, ports=ps)
            elif kind == 'rfArcObj':
                ob = rfArcObj(Larc=rsig(float(g.uniform(1e-9, 9e-8)), 3), Zbase=zb, ports=ps[:1])
            else:
                ob = rfCircuit(Zbase=zb)
                k = 2 + n % 3
                for i in range(k):
                    ob.addblock(f'T{i}', trl(['in', 'out']))
                ob.connect(*[f'T{i}.in' for i in range(k)])
            own = None
        ev['fs'] = [R(f) for f in fs]
        self.os.append(dict(ob=ob, fs=fs, own=own, kind=kind, zb=zb, unit=op['unit']))
        return {}

    def do_write(self, op, ev, A):
        g, o = self.g(op), self.os[op['o'] - 1]
        ob = o['ob']
        typ = op['typ'] if o['kind'] in ('rfObject', 'rfBase', 'rfTRL', 'rfCircuit') else 'S'
        fs = list(o['fs'])
        kw = {}
        if op['fs'] == 'some':
            fs = [f for f in fs if g.random() < .6] or fs[:1]
        if op['fs'] != 'own':
            kw['fs'] = A('fs', list(fs)) if g.random() < .5 else A('fs', np.array(fs))
        own = [o['own'][f] for f in fs] if o['own'] else [np.array(x) for x in ob.getS(fs)]
        ev['own'] = [dict(f=R(f), S=M(S)) for f, S in zip(fs, own)]
        ev['zo'], ev['ports'] = R(o['zb']), [str(p) for p in ob.ports]
        z = zother(g)
        ev['zr'] = ''
        unit, fmt, ref = op['unit'], op['fmt'], op['ref']
        if op['tf'] == 'default':
            unit = fmt = typ = ref = 'none'
        else:
            items = [[unit] if unit != 'none' else [], [typ] if typ != 'none' else [], [fmt] if fmt != 'none' else [],
                     ['R', str(z)] if ref == 'R' else []]
            if op['order'] > 1:
                items = [items[int(i)] for i in g.permutation(4)]
            tf = op['hash'] + ' '.join(x for i in items for x in i)
            tf = tf.lower() if op['case'] == 'lower' else tf
            kw['tsf_format' if op['wtsf'] else 'tfmt'] = tf
        if ref == 'R':
            ev['zr'] = R(z)
        elif op['wtsf']:
            ev['zr'] = R(50.)
        elif op['zb']:
            kw['Zbase'] = zother(g)
            ev['zr'] = R(kw['Zbase'])
        else:
            ev['zr'] = R(o['zb'])
        if op['cm'] != 'none':
            kw['comments'] = 'by the test' if op['cm'] == 'one' else 'first line\n  second, 1 2 3'
        ev['unit'], ev['fmt'], ev['typ'] = unit, fmt, typ
        ri = fmt == 'RI'
        ev['dfu'], ev['prec'] = '1e-15', '2e-8' if ri else '2e-6'
        if op['wtsf']:
            ev['dfu'], ev['prec'] = ('0.000051', '2e-7') if ri else ('0.0000051', '2e-6')
            if op['nf'] == 'fine':
                kw['num_format'] = ('20.14f', '18.15f', '+17.13f')
                ev['dfu'], ev['prec'] = '6e-15', '1e-9'
            if op['via'] == 'str':
                s = WriteTSF(ob, **kw)
            else:
                p = os.path.join(self.root, f'w{len(self.texts)}.s{len(ob)}p')
                WriteTSF(ob, p, **kw)
                s = open(p).read()
        elif op['via'] == 'str':
            s = ob.tsf2str(**kw)
        else:
            p = os.path.join(self.root, f'w{len(self.texts)}')
            ob.write_tsf(p, **kw)
            s = open(p + f'.s{len(ob)}p').read()
        t = tokens(s)
        self.texts.append((s, t))
        return dict(text=t)

    # -- reading -----------------------------------------------------------------
    def source(self, op, s):
        if op['src'] == 'str':
            return s
        if op['src'] == 'sio':
            return io.StringIO(s, newline=None)
        p = os.path.join(self.root, 'r.tsf')
        with open(p, 'w', newline='') as f:
            f.write(s)
        return p if op['src'] == 'path' else open(p)

    def do_read(self, op, ev, A):
        g = self.g(op)
        s, t = self.texts[op['t'] - 1]
        w = t['rows'][0]['w']
        n = int(round((len(w) / 2) ** .5))
        by = op['by']
        ev.update(skip=False, zq='', uq='HZ', pq=[], gxp=[])
        if by == 'rfTRL' and (n != 2 or len(t['rows']) < 2 or any('-inf' in r['w'] for r in t['rows'])
                              or len({float(r['f']) for r in t['rows']}) < len(t['rows'])):
            by = 'rfObject'
        ev['by'] = by
        kw = {}
        if op['zb'] != 'none':
            o = t['opts']
            own = [float(x) for x in o if x[0] in '0123456789']
            z = own[0] if op['zb'] == 'own' and own else 50 if op['zb'] == 'int' else zother(g)
            kw['Zbase'] = z
            ev['zq'] = R(z)
        unit = op['unit']
        if by == 'ReadTSF':
            ev['uq'] = 'GHZ'
        if unit != 'none' and by != 'rfTRL':
            kw['funit'] = SHOW[unit] if op['case'] == 'upper' or by == 'rfObject' else unit.lower()
            ev['uq'] = unit
        if op['ports'] != 'none' or by == 'rfTRL':
            if op['ports'] == 'format' and by == 'ReadTSF':
                kw['ports'] = 'p%02d.x'
                ev['pq'] = ['p%02d.x' % k for k in range(1, n + 1)]
            else:
                ev['pq'] = [str(x) for x in g.permutation(WORDS)[:n]]
                kw['ports'] = A('ports', list(ev['pq']))
        src = self.source(op, s)
        try:
            if by == 'ReadTSF':
                r = ReadTSF(src, **kw)
                spec = {}
                for k in ('part', 'numbering'):
                    if r[k] is not None:
                        spec[k] = [r[k]] if isinstance(r[k], str) else list(r[k])
                if r['shape'] is not None:
                    spec['shape'] = [int(x) for x in r['shape']]
                if r['markers'] is not None:
                    spec['markers'] = [R(x) for x in r['markers']]
                S = r['Ss']
                res = dict(spec=spec, fs=[R(x) for x in r['fs']], ports=[str(p) for p in r['ports']], z=R(r['Zbase']) if r['Zbase'] is not None else 'nan',
                           zc=[[C(x) for x in q] for q in r['Zc']], gm=[[C(x) for x in q] for q in r['Gm']])
            elif by == 'rfObject':
                if op['xp']:
                    xp = [rsig(float(x), 3) for x in g.uniform(-2, 2, n)]
                    kw['xpos'] = A('xpos', list(xp))
                    ev['gxp'] = [R(x) for x in xp]
                ob = rfObject(touchstone=src, **kw)
                S = ob.Ss
                res = dict(fs=[R(x) for x in ob.fs], ports=[str(p) for p in ob.ports], z=R(ob.Zbase), xpos=[R(x) for x in ob.xpos])
            else:
                ob = rfTRL(sNp=src, L=1., Z0TL=30., **kw)
                fs = [float(r['f']) * UNIT[next((x for x in t['opts'] if x in UNIT), 'GHZ')] for r in t['rows']]
                S = np.array(ob.getS(fs))
                res = dict(fs=[R(x) for x in fs], ports=[str(p) for p in ob.ports], z=R(ob.Zbase))
        finally:
            if hasattr(src, 'close'):
                src.close()
        self.keep(S)
        return dict(res, dims=[len(S), len(S[0]) if len(S) else 0], S=[M(x) for x in S])

    def do_bad(self, op, ev, A):
        g, n, w = self.g(op), op['n'], op['what']
        L = ['! bad', '# MHZ S RI R 50' + (' FOO' if w == 'unknown' else '')]
        for k in range(op['m']):
            v = ['%.4f' % x for x in g.uniform(-.5, .5, 2 * n * n)]
            if w == 'short' and k == op['m'] - 1:
                v = v[:-2]
            if w == 'ragged' and k == 0:
                v += ['0.1', '0.2']
            if w == 'word' and k == 1:
                v[int(g.integers(0, len(v)))] = ['abc', '0,5', '1..2'][int(g.integers(0, 3))]
            L.append(' '.join(['%d' % (30 + k)] + v))
        s = '\n'.join(L) + '\n'
        ReadTSF(s, Zbase=50.) if op['by'] == 'ReadTSF' else rfObject(touchstone=s)
        return {}


if __name__ == '__main__':
    main(Tsf)
