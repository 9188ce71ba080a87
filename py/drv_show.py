"""Replays spec/ShowGen.tla on the printing and plotting of results: strVSW, str_dict,
plotVSWs and its pointer, scaleVSW, printMatrices, compareSs, maxfun."""
from runner import *
import re
import matplotlib
matplotlib.use('Agg', force=True)
import matplotlib.pyplot as plt
from matplotlib.backend_bases import MouseEvent
from pyRFtk import printMatrices as pm
from pyRFtk.plotVSWs import plotVSWs, scaleVSW, strVSW
from pyRFtk.str_dict import str_dict
from pyRFtk.compareSs import compareSs
from pyRFtk.maxfun import maxfun

NUM = r'[-+]?(?:\d+\.?\d*|\.\d+|inf|nan)(?:e[-+]?\d+)?'


class Show(Runner):
    def __init__(self, b):
        super().__init__(b)
        plt.close('all')
        self.tree = {}
        self.nfig = 0

    def close(self):
        plt.close('all')

    # -- the tree ------------------------------------------------------------------
    def build(self, t, g, ev):
        out = {}
        for e in t:
            if e['kind'] == 'sub':
                out[e['key']] = self.build(e['sub'], g, ev)
                continue
            n = e['n'] + 1 if e['kind'] == 'line' else 1
            x0 = round(float(g.uniform(0, 3)), 4)
            xs = {'asc': x0 + np.cumsum(g.uniform(.05, 1, n)), 'desc': x0 + 4 - np.cumsum(g.uniform(.05, 1, n)),
                  'same': np.full(n, x0), 'neg': -x0 - np.cumsum(g.uniform(.05, 1, n))}[e['xk']]
            v = g.uniform(.01, 40, n)
            vs = {'var': v, 'cplx': v * np.exp(1j * g.uniform(0, 6.2, n)), 'same': np.full(n, v[0]), 'zero': np.zeros(n)}[e['vk']]
            if e['kind'] == 'port':
                out[e['key']] = vs[0]
                continue
            mk = (lambda a: a) if e['ck'] == 'array' else (lambda a: a.tolist())
            if e['kind'] == 'free':
                out[e['key']] = ([None], mk(vs))
            elif e['kind'] == 'node':
                x = int(round(float(xs[0]))) if e['int'] else float(xs[0])
                out[e['key']] = ([x], mk(vs))
            else:
                out[e['key']] = (mk(xs), mk(vs))
        return out

    def picture(self, t):
        """the tree as numbers"""
        out = []
        if not isinstance(t, dict):
            return [dict(key='?', kind='?', x=[], v=[], sub=[])]
        for key, val in t.items():
            e = dict(key=str(key), kind='?', x=[], v=[], sub=[])
            if isinstance(val, dict):
                e.update(kind='sub', sub=self.picture(val))
            elif isinstance(val, tuple) and len(val) == 2:
                e.update(kind='free' if val[0][0] is None else 'line' if len(val[0]) > 1 else 'node',
                         x=['None' if x is None else R(x) for x in val[0]], v=[C(v) for v in val[1]])
            else:
                e.update(kind='port', v=[C(val)])
            out.append(e)
        return out

    def snap(self):
        return self.picture(self.tree)

    def do_tree(self, op, ev, A):
        plt.close('all')
        self.nfig = 0
        self.tree = self.build(op['t'], self.g(op), ev)
        return self.picture(self.tree)

    def do_scale(self, op, ev, A):
        g = self.g(op)
        s = float(np.round(g.choice([2., .5, 1e-3, 1.7, -1.2]), 6))
        ev['s'] = R(s)
        scaleVSW(self.tree, s)

    def do_str(self, op, ev, A):
        s = strVSW(self.tree) if op['dflt'] else strVSW(self.tree, op['ind'])
        out = []
        for l in s.split('\n')[:-1]:
            r = dict(ind=len(l) - len(l.lstrip(' ')), txt=l.strip(' '), no='', x='', v='')
            m = re.match(r' *(\d+|node *|port *): *(' + NUM + r'|< None >) *, *(' + NUM + r') *$', l)
            if m:
                r.update(ind=0, txt='', no=m.group(1).strip(), x='None' if 'None' in m.group(2) else m.group(2), v=m.group(3))
            out.append(r)
        return dict(lines=out, end=s[-1:] in ('\n', ''))

    def do_outline(self, op, ev, A):
        s = str_dict(self.tree)
        out = []
        for l in s.split('\n'):
            r = dict(key='', kind='?', n=0, x=[])
            t = l.strip(' ')
            if t in ('{', '},', ''):
                r.update(kind=t)
            else:
                m = re.match(r'(.*?): (\{|node \[ *(N/A|' + NUM + r') m\],|line \[(\d+) pts, *(' + NUM + r')m to *(' + NUM + r')m\],|\?\? .*,)$', t)
                if m:
                    r['key'] = m.group(1)
                    w = m.group(2)
                    if w == '{':
                        r['kind'] = 'sub'
                    elif w[:4] == 'node':
                        r.update(kind='node', n=1, x=['None' if m.group(3) == 'N/A' else m.group(3)])
                    elif w[:4] == 'line':
                        r.update(kind='line', n=int(m.group(4)), x=[m.group(5), m.group(6)])
                    else:
                        r['kind'] = 'other'
            out.append(r)
        return dict(lines=out)

    # -- figures -------------------------------------------------------------------
    def lines(self, ax, n0=0):
        return [dict(label=str(l.get_label()), xs=[R(x) for x in np.asarray(l.get_xdata(), dtype=float)],
                     ys=[R(y) for y in np.asarray(l.get_ydata(), dtype=float)],
                     dots=l.get_marker() not in ('None', None, '', ' '), joined=l.get_linestyle() not in ('None', ' ', ''))
                for l in ax.get_lines()[n0:]]

    def do_plot(self, op, ev, A):
        if op['fresh'] and op['id'] != 'both':
            plt.close('all')
        kw = {}
        if op['id'] in ('id', 'both'):
            kw['Id'] = r'V at $f_0$'
        if op['id'] in ('num', 'both'):
            self.nfig += 1
            kw['num'] = f'fig {self.nfig}'
        if op['ml'] >= 0:
            kw['maxlev'] = op['ml']
        if op['pn']:
            kw['plotnodes'] = True
        if op['pp']:
            kw['plotpoints'] = True
        figs = plt.get_fignums()
        cur = plt.gcf().number if figs else None
        old = {id(ax): len(ax.get_lines()) for k in figs for ax in plt.figure(k).get_axes()} if figs else {}
        if figs:
            plt.figure(cur)
        plotVSWs(self.tree, **kw)
        ax = plt.gca()
        self.ax, self.fig = ax, plt.gcf()
        return dict(lines=self.lines(ax, old.get(id(ax), 0)), title=ax.get_title(), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(),
                    legend=[t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else [],
                    nfig=len(plt.get_fignums()), notes=self.notes())

    def notes(self):
        out = []
        for t in self.ax.texts:
            if t.get_visible():
                m = re.match(r'(.*)\n(' + NUM + r')kV$', t.get_text(), re.S)
                out.append(dict(id=m.group(1) if m else '?', v=m.group(2) if m else 'nan', x=R(t.xy[0]), y=R(t.xy[1])))
        return out

    def do_hover(self, op, ev, A):
        g = self.g(op)
        ax = self.ax
        ev['pts'], out = [], []
        for where in op['where']:
            (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
            x, y = x0 + g.uniform(.02, .98) * (x1 - x0), y0 + g.uniform(.02, .98) * (y1 - y0)
            if where == 'near' and ax.get_lines():
                l = ax.get_lines()[int(g.integers(len(ax.get_lines())))]
                k = int(g.integers(len(l.get_xdata())))
                x, y = float(l.get_xdata()[k]) + g.normal() * .01 * (x1 - x0), float(l.get_ydata()[k]) + g.normal() * .01 * (y1 - y0)
            px, py = ax.transData.transform((x, y))
            if where == 'out':
                px, py = 1., 1.
            me = MouseEvent('motion_notify_event', self.fig.canvas, px, py)
            inside = me.inaxes is ax
            ev['pts'].append(dict(inside=inside, at=[R(me.xdata), R(me.ydata)] if inside else ['nan', 'nan'], span=[R(x1 - x0), R(y1 - y0)]))
            self.fig.canvas.callbacks.process('motion_notify_event', me)
            out.append(self.notes())
        return dict(notes=out)

    # -- matrices ------------------------------------------------------------------
    def do_mat(self, op, ev, A):
        g = self.g(op)
        n, m, f = op['n'], op['m'], op['f']
        Z = 10 ** g.uniform(-4, .9, (n, m)) * np.exp(1j * g.uniform(-3.14, 3.14, (n, m)))
        w = g.integers(0, 6, (n, m))
        Z[w == 2] = 1j * Z[w == 2].imag
        Z[w == 3] = Z[w == 3].real
        Z[w == 0] = 0 if f != 'printDB' or op['z'] != 'none' else 1
        Z[(w == 1) & (g.integers(0, 3, (n, m)) == 0)] = 3e-8 + 4e-8j
        if op['src'] == 'real':
            Z = Z.real.copy()
            if f == 'printDB':
                Z = np.where(Z == 0, 1., Z)
        arg = A('M', Z.tolist() if op['src'] == 'list' else Z)
        ev['M'] = [[C(z) for z in r] for r in Z]
        kw = {'default': {}, 'none': dict(printzeros=''), 'dot': dict(printzeros='.')}[op['z']]
        ev['pre'] = {'strM': 3, 'printM': 3, 'printRI': 3, 'printMA': 5, 'printDB': 3, 'printR': 3}[f]
        if f == 'strM':
            s = pm.strM(arg, **kw) + '\n'
        else:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                getattr(pm, f)(arg, **kw)
            s = buf.getvalue()
        L = s.split('\n')
        cell = {'printMA': r' *(%s) +([-+]\d+\.?\d*)\u00b0, ', 'printDB': r' *(%s) *([-+]\d+\.?\d*)\u00b0, ',
                'printR': r' *(%s)(), '}.get(f, r' *(%s) *([-+]\d+\.?\d*)j, ') % NUM
        zero = {'default': '0', 'dot': '.', 'none': '\0'}[op['z']]
        rows = []
        for l in L[2:2 + n] if len(L) > 2 + n else []:
            row, k = [], 0
            while k < len(l):
                mm = re.compile(cell).match(l, k)
                if mm:
                    row.append(dict(z=False, a=mm.group(1), b=mm.group(2)))
                    k = mm.end()
                    continue
                mm = re.compile(r' *' + re.escape(zero) + r'(?= ) ?').match(l, k)
                if mm is None or mm.end() == k:
                    mm2 = re.compile(r' +$').match(l, k)
                    if mm2:
                        break
                    row.append(dict(z=False, a='nan', b='nan'))
                    break
                row.append(dict(z=True, a='', b=''))
                k = mm.end()
            rows.append(row)
        head = re.match(r'\[(\d+),(\d+)\]$', L[0])
        return dict(head=[int(head.group(1)), int(head.group(2))] if head else [], blank=len(L) > 1 and L[1] == '', rows=rows,
                    rest=all(l == '' for l in L[2 + n:]))

    # -- comparison of S-matrices ---------------------------------------------------
    def do_cmp(self, op, ev, A):
        g = self.g(op)
        N, ns, nf = op['N'], op['ns'], op['nf']
        plt.close('all')
        fs = [np.sort(g.uniform(30, 60, nf + (k if op['fm'] == 'many' else 0))) for k in range(ns if op['fm'] == 'many' else 1)]
        Ss = [(g.normal(size=(len(fs[k % len(fs)]), N, N)) + 1j * g.normal(size=(len(fs[k % len(fs)]), N, N))) * .5 for k in range(ns)]
        if op['bad'] == 'shape':
            Ss[-1] = np.zeros((nf, N + 1, N + 1), dtype=complex)
        if op['bad'] == 'len':
            Ss[0] = np.concatenate([Ss[0], Ss[0][:1]])
        if op['bad'] == 'nfs':
            fs = fs + [fs[0]]
        ev['fs'] = [[R(x) for x in f] for f in fs]
        ev['S'] = [[M(s) for s in Sk] for Sk in Ss]
        kw = {}
        if op['lm']:
            kw['lbls'] = ev['lbls'] = ['one', 'two', 'three', 'four'][:ns]
        else:
            ev['lbls'] = []
        if op['cm']:
            kw['cs'] = ['g', 'r-.', 'm', 'k--'][:ns]
        a1 = A('fs', fs[0] if op['fm'] == 'one' else fs)
        a2 = A('Ss', Ss[0] if ns == 1 and op['sm'] else Ss)
        compareSs(a1, a2, **kw)
        fig = plt.gcf()
        res = [dict(title=ax.get_title(), xlabel=ax.get_xlabel(), lines=self.lines(ax),
                    legend=[t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else [])
               for ax in fig.get_axes()]
        plt.close('all')
        self.nfig = 0
        return dict(axes=res)

    def do_max(self, op, ev, A):
        g = self.g(op)
        n = op['n']
        xs = round(float(g.uniform(-2, 5)), 3) + np.cumsum(g.uniform(.2, 1, n) * 10 ** g.uniform(-2, 0))
        if n > 3 and g.integers(4) == 0:
            xs[-1] = xs[-2] + (xs[-1] - xs[-2]) * .05
        p = g.uniform(0, 6)
        y = {'smooth': lambda: 5 + 3 * np.cos(np.linspace(p, p + 6, n)), 'rough': lambda: g.uniform(0, 10, n),
             'steps': lambda: np.round(g.uniform(0, 4, n)), 'up': lambda: np.cumsum(g.uniform(0, 1, n)),
             'down': lambda: 50 - np.cumsum(g.uniform(0, 1, n))}[op['y']]()
        ev['xs'], ev['ys'] = [R(x) for x in xs], [R(v) for v in y]
        xy = maxfun(A('xs', xs), A('ys', np.array(y)))
        return dict(x=R(xy[0]), y=R(xy[1]))


main(Show)
