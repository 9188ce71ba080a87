"""Resolves descriptions of coaxial lines (spec/TlrGen.tla) with pyRFtk."""
from runner import *
from pyRFtk import rfTRL
C0, MU0 = 299792458., 1.25663706127e-6
EPS0, ETA0 = 1 / MU0 / C0**2, MU0 * C0
ALL = ['OD', 'ID', 'rho', 'rhoI', 'rhoO', 'RsI', 'RsO', 'rTL', 'rTLO', 'rTLI', 'qTLI', 'qTLO', 'murI', 'murO', 'A',
       'AdB', 'gTL', 'sigma', 'tand', 'LTL', 'CTL', 'Z0TL', 'epsr', 'mur', 'vr', 'etar', 'rjwL', 'gjwC', 'Zc', 'gamma', 'beta']
VARYW = {'RsI', 'RsO', 'rTL', 'rTLO', 'rTLI', 'A', 'AdB', 'gTL', 'sigma', 'tand'}
VARYX = {'OD', 'rTL', 'rTLO', 'qTLO', 'A', 'AdB', 'gTL', 'LTL', 'CTL', 'Z0TL'}


class Truth:
    def __init__(self, g, facts, very, slope):
        fa = set(facts)
        u = lambda a, b: rsig(float(np.exp(g.uniform(np.log(a), np.log(b)))))
        self.ID = u(.01, .2)
        self.OD = (rsig(self.ID * float(g.uniform(1.2, 4))), rsig(self.ID * float(g.uniform(.02, .1))) if slope else 0.)
        self.epsr = 1. if 'epsr' in fa else u(1.05, 4)
        self.mur = 1. if 'mur' in fa else u(1.05, 3)
        self.murI = 1. if 'murI' in fa else u(1.5, 50)
        self.murO = 1. if 'murO' in fa else u(1.5, 50)
        k = 1e5 if very else 1.
        self.rhoI = 0. if 'rTL' in fa else u(1e-8, 1e-5) * k
        self.rhoO = self.rhoI if 'rhoEq' in fa else 0. if 'rTL' in fa else u(1e-8, 1e-5) * k
        self.med = (['sigma', 'tand'][int(g.integers(0, 2))], 0.)
        if 'gTL' not in fa:
            self.med = ('tand', u(.5, 5) if very else u(1e-4, .05)) if g.random() < .5 else \
                       ('sigma', u(1e-3, 1e-2) if very else u(1e-7, 1e-4))

    def text(self):
        return dict(OD=[R(self.OD[0]), R(self.OD[1])], ID=R(self.ID), epsr=R(self.epsr), mur=R(self.mur), rhoI=R(self.rhoI),
                    rhoO=R(self.rhoO), murI=R(self.murI), murO=R(self.murO), med=[self.med[0], R(self.med[1])])

    def q(self, name, w, x):
        od = self.OD[0] + self.OD[1] * x
        ln = np.log(od / self.ID)
        etar, vr = np.sqrt(self.mur / self.epsr), 1 / np.sqrt(self.mur * self.epsr)
        z0 = etar * ETA0 * ln / 2 / np.pi
        we = w * self.epsr * EPS0
        sg = self.med[1] if self.med[0] == 'sigma' else we * self.med[1]
        rsi, rso = np.sqrt(w * MU0 * self.murI * self.rhoI / 2), np.sqrt(w * MU0 * self.murO * self.rhoO / 2)
        qi, qo = 1 / np.pi / self.ID, 1 / np.pi / od
        L, C, r, g = z0 / C0 / vr, 1 / z0 / C0 / vr, qi * rsi + qo * rso, 2 * np.pi * sg / ln
        # real part of the square root without cancellation
        p = (r + 1j * w * L) * (g + 1j * w * C)
        A = abs(p.imag) / np.sqrt(2 * (abs(p) - p.real)) if p.real < 0 else np.sqrt((abs(p) + p.real) / 2)
        v = dict(OD=od, ID=self.ID, rho=self.rhoI, rhoI=self.rhoI, rhoO=self.rhoO, RsI=rsi, RsO=rso, rTL=r, rTLI=qi * rsi,
                 rTLO=qo * rso, qTLI=qi, qTLO=qo, murI=self.murI, murO=self.murO, A=A, AdB=20 * A / np.log(10), gTL=g,
                 sigma=sg, tand=sg / we, LTL=L, CTL=C, Z0TL=z0, epsr=self.epsr, mur=self.mur, vr=vr, etar=etar)
        return float(v[name])


class Tlr(Runner):
    def do_line(self, op, ev, A):
        g = self.g(op)
        form = op['form']
        t = Truth(g, op['facts'], op['very'], form == 'x')
        f = rsig(float(g.uniform(5e6, 1e8)))
        w = 2 * np.pi * f
        L = rsig(float(g.uniform(.1, 3)))
        zb = t.q('Z0TL', w, 0.) if 'Z0TL' in op['facts'] else rsig(float(g.uniform(10, 90)))
        ev.update(t=t.text(), f=R(f), L=R(L), zb=R(zb))
        kw = {}
        names = [str(n) for n in g.permutation(op['given'])] if op['given'] else []
        for n in names:
            vw, vx = n in VARYW, n in VARYX and form == 'x'
            if form == 'c' or not (vw or vx):
                v = t.q(n, w, 0.)
                if g.random() < .15:
                    v = A(n, [v])
                elif v == int(v) and g.random() < .5:
                    v = int(v)
                elif g.random() < .1:
                    v = (lambda u: lambda: u)(v)
            elif n == 'OD' and g.random() < .6:
                # linear: given by its ends or by places and values
                a, b = t.q(n, w, 0.), t.q(n, w, L)
                v = A(n, np.array([a, (a + b) / 2, b]) if g.random() < .5 else [[0., L / 4, L], [a, t.q(n, w, L / 4), b]])
            else:
                v = self.fun(t, n, vw, vx, g.random() < .5)
            kw[n] = v
        ev['gv'] = names
        xs = [0.] if form == 'c' else [0., rsig(L * float(g.uniform(.2, .8))), L]
        # the last word on a value is the specification's; here the same double precision formula
        ob = rfTRL(L=L, Zbase=zb, **kw)
        P = ob.TLP
        pts, at = [], []
        for ff in (f,) if form == 'c' else (f, rsig(float(g.uniform(5e6, 1e8)))):
            for x in xs:
                v = {}
                for n in ALL:
                    if hasattr(P, n):
                        v[n] = C(getattr(P, n)(2 * np.pi * ff, x))
                pts.append(v)
                at.append(dict(f=R(ff), x=R(x), gv=[C(t.q(n, 2 * np.pi * ff, x)) for n in names]))
        ev['at'] = at
        r = dict(pts=pts, S=[])
        if form != 'x' and op['suff']:
            S = ob.getS(f)
            self.keep(S)
            r['S'] = M(S)
        return r

    @staticmethod
    def fun(t, n, vw, vx, alt):
        if vw and vx:
            return (lambda w, x: t.q(n, w, x)) if alt else (lambda x, w: t.q(n, w, x))
        if vw:
            return lambda w: t.q(n, w, 0.)
        return lambda x: t.q(n, 1e8, x)


if __name__ == '__main__':
    main(Tlr)
