"""The families of behaviours: how each is generated by TLC from its specification,
which driver replays it on the real library and which trace specification judges it."""
import random, copy


class Family:
    driver = None
    judge = None
    queries = ()          # event kinds with a numeric result to perturb

    def generate(self, e, num, seed, arg, variant):
        raise NotImplementedError

    # -- binding demonstration: one recorded number is changed ----------------------
    def perturb(self, trace, rnd):
        """a copy of trace with one recorded result falsified, and the index of that
        event (1-based), or None"""
        evs = [i for i, ev in enumerate(trace['ev'])
               if ev['k'] in self.queries and ev['out'] == 'ok' and ev.get('all', True) and numbers(ev['res'])]
        if not evs:
            return None
        i = rnd.choice(evs)
        t = copy.deepcopy(trace)
        t['ev'] = t['ev'][:i + 1]
        cont, key = rnd.choice(numbers(t['ev'][i]['res']))
        x = float(cont[key])
        cont[key] = repr(x + (0.013 * (1 + abs(x))))
        return t, i + 1


def numbers(x, out=None, name=''):
    """places in a recorded result holding decimal text"""
    out = [] if out is None else out
    it = x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()
    for k, v in it:
        if k in NOTNUM:
            continue
        if isinstance(v, (dict, list)):
            numbers(v, out)
        elif isinstance(v, str):
            try:
                f = float(v)
            except ValueError:
                continue
            if abs(f) < 1e8 and '.' in v:
                out.append((x, k))
    return out


NOTNUM = {'vmax', 'xs', 'where', 'wparts', 'tok', 'path'}


class Circ(Family):
    driver, judge = 'drv_circ.py', 'CircTrace'
    queries = ('getS', 'solution', 'maxV', 'intS', 'nav', 'show')
    invs = ['PortsAreUnconsumed', 'PositionsDefined', 'WellFounded']

    def generate(self, e, num, seed, arg, variant):
        bs = e.generate('CircGen', dict(Sim='TRUE', Profile=f'"{arg}"', MaxOps=34, NLeaf=6, NCirc=4),
                        num, seed, invs=self.invs)
        return [dict(seed=seed * 100000 + i, variant=variant, ops=b) for i, b in enumerate(bs)]


class Small(Circ):
    """all histories of a small instance; num: how many of them (0: all)"""
    def generate(self, e, num, seed, arg, variant):
        story, deep = arg.split('-')
        bs, _ = e.enumerate('CircSmall', dict(Sim='FALSE', Profile='"history"', MaxOps=99, NLeaf=9, NCirc=9,
                                              Story=f'"{story}"', Deep=deep), invs=self.invs, spec='SSpec')
        if num and num < len(bs):
            bs = random.Random(seed).sample(bs, num)
        return [dict(seed=seed * 100000 + i, variant=variant, ops=b) for i, b in enumerate(bs)]


class Conv(Family):
    driver, judge = 'drv_conv.py', 'ConvTrace'
    queries = ('conv', 'from_S', 'to_S')

    def generate(self, e, num, seed, arg, variant):
        if arg == 'grid':
            bs, _ = e.enumerate('ConvGen', dict(Mode='"grid"', MaxOps=9), invs=['ShapesKept'])
            if num and num < len(bs):
                bs = random.Random(seed).sample(bs, num)
        else:
            bs = e.generate('ConvGen', dict(Mode='"walk"', MaxOps=16), num, seed, invs=['ShapesKept'])
        return [dict(seed=seed * 100000 + i, variant=variant, ops=b) for i, b in enumerate(bs)]


class Obj(Family):
    driver, judge = 'drv_obj.py', 'ObjTrace'
    queries = ('getS', 'get1S', 'maxV', 'visw', 'solveVI', 'str')

    def generate(self, e, num, seed, arg, variant):
        bs = e.generate('ObjGen', dict(Profile=f'"{arg}"', MaxOps=26), num, seed, invs=['IdsOK'])
        return [dict(seed=seed * 100000 + i, variant=variant, ops=b) for i, b in enumerate(bs)]



class Tlr(Family):
    driver, judge = 'drv_tlr.py', 'TlrTrace'
    queries = ('line',)

    def generate(self, e, num, seed, arg, variant):
        if arg == 'grid':
            bs, _ = e.enumerate('TlrGen', dict(Mode='"grid"', MaxOps=9), invs=['GivenIsKnown'], workers=4)
            bs = sorted(bs, key=lambda b: repr(b))
            if num and num < len(bs):
                bs = random.Random(seed).sample(bs, num)
        else:
            bs = e.generate('TlrGen', dict(Mode='"walk"', MaxOps=10), num, seed, invs=['GivenIsKnown'])
        return [dict(seed=seed * 100000 + i, variant=variant, ops=b) for i, b in enumerate(bs)]


class Tab(Family):
    driver, judge = 'drv_tab.py', 'TabTrace'
    queries = ('getS', 'table', 'maxV', 'str')

    def generate(self, e, num, seed, arg, variant):
        bs = e.generate('TabGen', dict(Profile=f'"{arg}"', MaxOps=22), num, seed, invs=['Typed'])
        return [dict(seed=seed * 100000 + i, variant=variant, ops=b) for i, b in enumerate(bs)]


class Util(Family):
    driver, judge = 'drv_util.py', 'UtilTrace'

    def generate(self, e, num, seed, arg, variant):
        bs = e.generate('UtilGen', dict(MaxOps=40), num, seed, invs=['Rooted'])
        return [dict(seed=seed * 100000 + i, variant=variant, ops=b) for i, b in enumerate(bs)]

    def perturb(self, trace, rnd):
        evs = [i for i, ev in enumerate(trace['ev']) if ev['out'] == 'ok' and ev['k'] in ('search', 'lines', 'dict')]
        if not evs:
            return None
        i = rnd.choice(evs)
        t = copy.deepcopy(trace)
        t['ev'] = t['ev'][:i + 1]
        r = t['ev'][i]['res']
        if 'lines' in r:
            r['lines'].append('x')
        elif 'val' in r:
            r['val'] += ' '
        else:
            r.update(path=['cwd', 'zzz'], empty=False)
        return t, i + 1


class Tsf(Family):
    driver, judge = 'drv_tsf.py', 'TsfTrace'
    queries = ('read',)

    def generate(self, e, num, seed, arg, variant):
        bs = e.generate('TsfGen', dict(Profile=f'"{arg}"', MaxOps=20), num, seed, invs=['Counted'])
        return [dict(seed=seed * 100000 + i, variant=variant, ops=b) for i, b in enumerate(bs)]


class Show(Family):
    driver, judge = 'drv_show.py', 'ShowTrace'
    queries = ('str', 'plot', 'hover', 'mat', 'cmp', 'max')

    def generate(self, e, num, seed, arg, variant):
        bs = e.generate('ShowGen', dict(MaxOps=30), num, seed, invs=['Shaped'])
        return [dict(seed=seed * 100000 + i, variant=variant, ops=b) for i, b in enumerate(bs)]


FAMILIES = dict(small=Small(), show=Show(), tsf=Tsf(), util=Util(), tab=Tab(), circ=Circ(), conv=Conv(), obj=Obj(), tlr=Tlr())

# property -> [(family, arg, variant, number of behaviours in the quick tier)]
PLAN = dict(
    C01=[('small', 'flat-2', 'plain', 0), ('circ', 'assembly', 'plain', 130), ('circ', 'lossless', 'plain', 40), ('circ', 'history', 'plain', 50)],
    C02=[('small', 'shared-2', 'plain', 0), ('small', 'shared-3', 'plain', 400), ('circ', 'history', 'plain', 130), ('circ', 'set', 'plain', 50), ('circ', 'replace', 'plain', 50)],
    C03=[('small', 'flat-2', 'plain', 0), ('circ', 'ports', 'plain', 140), ('circ', 'assembly', 'plain', 50), ('circ', 'deembed', 'plain', 40), ('tsf', 'read', 'plain', 40)],
    C04=[('small', 'shared-3', 'plain', 250), ('circ', 'solution', 'plain', 180), ('circ', 'history', 'plain', 40)],
    C05=[('conv', 'walk', 'plain', 200), ('conv', 'grid', 'plain', 0)],
    C06=[('conv', 'walk', 'plain', 300), ('conv', 'grid', 'plain', 200), ('tab', 'mix', 'plain', 40)],
    C07=[('small', 'flat-2', 'plain', 0), ('circ', 'passive', 'plain', 160), ('circ', 'lossless', 'plain', 100), ('circ', 'solution', 'plain', 60), ('obj', 'mix', 'plain', 100)],
    C08=[('small', 'deep-3', 'plain', 250), ('circ', 'copy', 'plain', 200), ('obj', 'mix', 'plain', 120), ('tab', 'mix', 'plain', 60), ('circ', 'gtl', 'plain', 60)],
    C09=[('small', 'deep-2', 'plain', 0), ('small', 'deep-3', 'plain', 400), ('circ', 'replace', 'plain', 200), ('circ', 'nav', 'plain', 60)],
    C10=[('small', 'shared-2', 'plain', 250), ('circ', 'set', 'plain', 200), ('obj', 'mix', 'plain', 120)],
    C11=[('circ', 'bad', 'plain', 200), ('obj', 'mix', 'plain', 100), ('conv', 'walk', 'plain', 80), ('tab', 'bad', 'plain', 80), ('tsf', 'read', 'plain', 60), ('circ', 'gtl', 'plain', 50)],
    C12=[('small', 'shared-2', 'scr', 150), ('circ', 'history', 'scr', 50), ('circ', 'bad', 'scr', 40), ('circ', 'set', 'scr', 40),
         ('circ', 'ports', 'scr', 40), ('circ', 'deembed', 'scr', 30), ('circ', 'ints', 'scr', 30),
         ('obj', 'mix', 'scr', 120), ('obj', 'taper', 'scr', 40), ('conv', 'walk', 'scr', 60), ('tlr', 'walk', 'scr', 40), ('tab', 'mix', 'scr', 60), ('util', 'x', 'scr', 100), ('tsf', 'read', 'scr', 40), ('tsf', 'write', 'scr', 40), ('circ', 'gtl', 'scr', 40), ('show', 'x', 'scr', 30)],
    C13=[('tab', 'mix', 'plain', 150), ('tab', 'interp', 'plain', 150), ('tab', 'tsf', 'plain', 40)],
    C14=[('tsf', 'write', 'plain', 500)],
    C15=[('tsf', 'read', 'plain', 500), ('tab', 'tsf', 'plain', 40)],
    C16=[('obj', 'line', 'plain', 200), ('obj', 'taper', 'plain', 120)],
    C17=[('tlr', 'walk', 'plain', 250), ('tlr', 'grid', 'plain', 8000)],
    C18=[('obj', 'rlc', 'plain', 300)],
    C19=[('circ', 'deembed', 'plain', 200), ('tab', 'deembed', 'plain', 120)],
    C20=[('circ', 'gtl', 'plain', 220)],
    C21=[('circ', 'maxv', 'plain', 180), ('obj', 'mix', 'plain', 100), ('tab', 'mix', 'plain', 40), ('show', 'x', 'plain', 80)],
    C22=[('util', 'x', 'plain', 1500)],
    C23=[('circ', 'log', 'log', 100), ('circ', 'ints', 'log', 50), ('circ', 'bad', 'log', 40), ('circ', 'maxv', 'log', 40),
         ('circ', 'ports', 'log', 40), ('circ', 'deembed', 'log', 30), ('tab', 'deembed', 'log', 20), ('circ', 'vec', 'log', 20),
         ('obj', 'mix', 'log', 60), ('conv', 'walk', 'log', 40), ('tlr', 'walk', 'log', 40), ('tab', 'mix', 'log', 40),
         ('tsf', 'read', 'log', 40), ('tsf', 'write', 'log', 40), ('util', 'x', 'log', 60), ('circ', 'gtl', 'log', 40), ('show', 'x', 'log', 30)],
    C24=[('circ', 'ints', 'plain', 200)],
    C25=[('circ', 'vec', 'plain', 180), ('obj', 'mix', 'plain', 120), ('tab', 'interp', 'plain', 60)],
    C27=[('circ', 'nav', 'plain', 250), ('circ', 'gtl', 'plain', 40)],
    C28=[('show', 'x', 'plain', 400), ('circ', 'show', 'plain', 200), ('obj', 'show', 'plain', 150), ('tab', 'show', 'plain', 120)],
    C26=[('obj', 'arccpl', 'plain', 300), ('circ', 'assembly', 'plain', 60)],
)

# explored once more by the thorough tier
DEEP = dict(
    C01=[('small', 'flat-3', 'plain', 0)],
    C02=[('small', 'shared-3', 'plain', 0)],
    C03=[('small', 'flat-3', 'plain', 0)],
    C09=[('small', 'deep-3', 'plain', 0)],
    C08=[('small', 'deep-3', 'plain', 3000)],
    C10=[('small', 'shared-3', 'plain', 3000)],
    C12=[('small', 'shared-3', 'scr', 1500), ('small', 'flat-3', 'scr', 500)],
    C23=[('small', 'flat-3', 'log', 500)],
)

NOTE = {'*': 'behaviours are sampled from the specification (seeded), not exhausted; every recorded event of the real '
             'library is decided by the specification with 44-digit arithmetic'}
