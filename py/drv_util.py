"""Replays spec/UtilGen.tla on findpath, existspath, ReadDictData, ReadDictString and
getlines, in a scratch directory of its own."""
from runner import *
import io, shutil, tempfile
from pyRFtk.findpath import findpath, existspath
from pyRFtk.ReadDictData import ReadDictData, ReadDictString
from pyRFtk.getlines import getlines

VAR = 'VERIF_FINDPATH_DIRS'
BAD = ["{'a': __import__('os').getpid()}", "{'a': 1", "{'a': b}", "x = {}", "", "{'a': open('x')}"]
WORDS = ['alpha', '1.5 2.5', '', '  indented', 'tab\there', '! comment', 'trailing  ', 'x', '{"a": 1}', 'a\x0bb', 'c\x0cd', 'e\u2028f', 'é']


def tag(v):
    if isinstance(v, dict):
        return {'dict': [[tag(a), tag(b)] for a, b in v.items()]}
    if isinstance(v, (list, tuple, set)):
        return {type(v).__name__: [tag(x) for x in (sorted(v) if isinstance(v, set) else v)]}
    return {type(v).__name__: repr(v)}


class Util(Runner):
    def __init__(self, b):
        super().__init__(b)
        self.root = tempfile.mkdtemp(prefix='verif-util-')
        self.cwd0, self.home0 = os.getcwd(), os.environ.get('HOME')
        for d in ('home', 'cwd'):
            os.mkdir(os.path.join(self.root, d))
        os.chdir(os.path.join(self.root, 'cwd'))
        os.environ['HOME'] = os.path.join(self.root, 'home')
        os.environ.pop(VAR, None)

    def close(self):
        os.chdir(self.cwd0)
        if self.home0 is not None:
            os.environ['HOME'] = self.home0
        os.environ.pop(VAR, None)
        shutil.rmtree(self.root)

    def path(self, p):
        return os.path.join(self.root, *p)

    def spell(self, s):
        p = s['p']
        if s['how'] == 'home':
            return '/'.join(['~'] + p[1:])
        if s['how'] == 'rel':
            return os.path.relpath(self.path(p))
        return self.path(p) + ('/' if s['how'] == 'slash' else '')

    def value(self, g, depth=0):
        k = int(g.integers(0, 11 if depth < 3 else 8))
        if k == 0: return int(g.integers(-1000, 1000))
        if k == 1: return float(g.normal())
        if k == 2: return ['text', "it's", 'two\nlines', 'ü', ''][int(g.integers(0, 5))]
        if k == 3: return bool(g.integers(0, 2))
        if k == 4: return None
        if k == 5: return complex(round(float(g.normal()), 4), round(float(g.normal()), 4))
        if k == 6: return float(10. ** int(g.integers(-12, 20)))
        if k == 7: return b'by'
        if k == 8: return [self.value(g, depth + 1) for _ in range(int(g.integers(0, 4)))]
        if k == 9: return tuple(self.value(g, depth + 1) for _ in range(int(g.integers(0, 4))))
        return self.dict(g, depth + 1)

    def dict(self, g, depth=0):
        keys = ['L', 'Zbase', 'x y', 3, (1, 'a'), 'ports', '', 2.5]
        return {keys[int(i)]: self.value(g, depth) for i in g.permutation(len(keys))[:int(g.integers(0, 5))]}

    def text(self, g, d):
        """the dictionary as a file could contain it"""
        s = repr(d)
        w = int(g.integers(0, 5))
        if w == 1: s = '# a comment\n' + s + '  # and another\n'
        elif w == 2: s = s.replace(', ', ',\n   ') if "', '" not in s else s + '\n\n'
        elif w == 3: s = '  ' + s + '\n'
        elif w == 4: s = '\n\n' + s + '\n'
        return s

    def content(self, op, ev):
        g = self.g(op)
        if op['bad']:
            ev['val'] = 'bad'
            return BAD[int(g.integers(0, len(BAD)))]
        d = self.dict(g)
        s = self.text(g, d)
        ev['val'] = json.dumps(tag(d))
        return s

    def do_mkdir(self, op, ev, A):
        os.makedirs(self.path(op['d']), exist_ok=True)

    def do_rmdir(self, op, ev, A):
        shutil.rmtree(self.path(op['d']))

    def do_touch(self, op, ev, A):
        with open(self.path(op['p']), 'w') as f:
            f.write(self.content(op, ev))

    def do_rm(self, op, ev, A):
        os.remove(self.path(op['p']))

    def do_env(self, op, ev, A):
        if op['m'] == 'unset':
            os.environ.pop(VAR, None)
        else:
            os.environ[VAR] = ':'.join(self.spell(s) for s in op['l'])

    def do_search(self, op, ev, A):
        kw = {}
        if op['um'] != 'default':
            kw['userdirs'] = self.spell(op['ul'][0]) if op['um'] == 'one' else A('userdirs', [self.spell(s) for s in op['ul']])
        if op['am'] != 'default':
            kw['appdirs'] = self.spell(op['al'][0]) if op['am'] == 'one' else A('appdirs', [self.spell(s) for s in op['al']])
        if op['ue'] == 'yes':
            kw['envvar'] = VAR
        if op['ok'] != 'default':
            kw['missingOK'] = op['ok'] == 'true'
        if op['vb']:
            kw['verbose'] = True
        pat = '/'.join(op['pat']['dir'] + [op['pat']['pat']])
        fn = dict(find=findpath, exists=existspath, read=ReadDictData)[op['via']]
        ev['oserr'] = False
        try:
            if op['pos']:
                r = fn(pat, kw.pop('userdirs', ['.']), kw.pop('envvar', ''), kw.pop('appdirs', []), **kw)
            else:
                r = fn(pat, **kw)
        except OSError:
            ev['oserr'] = True
            raise
        if op['via'] == 'read':
            return dict(val=json.dumps(tag(r)))
        if r == '':
            return dict(path=[], empty=True)
        p = os.path.relpath(os.path.abspath(r), self.root)
        return dict(path=p.split('/'), empty=False)

    def do_lines(self, op, ev, A):
        g = self.g(op)
        ws = [WORDS[int(i)] for i in g.integers(0, len(WORDS), op['n'])]
        if op['src'] == 'str':
            if len(ws) < 2:
                ws = ws + ['more']
        final = op['final'] or ws[-1] == ''
        nl = dict(lf='\n', crlf='\r\n', cr='\r')[op['nl'] if op['src'] in ('path', 'file') or op['nl'] != 'cr' else 'lf']
        t = nl.join(ws) + (nl if final else '')
        ev['want'], ev['off'] = ws, 0
        if op['src'] == 'str':
            return dict(lines=list(getlines(t)()))
        if op['src'] == 'sio':
            f = io.StringIO(t, newline=None)
            return dict(lines=list(getlines(f)()))
        p = os.path.join(self.root, 'lines.txt')
        with open(p, 'w', newline='', encoding='utf-8') as f:
            f.write(t)
        if op['src'] == 'path':
            return dict(lines=list(getlines(p)()))
        with open(p, encoding='utf-8') as f:
            ev['off'] = min(op['skip'], len(ws))
            for _ in range(ev['off']):
                f.readline()
            return dict(lines=list(getlines(f)()))

    def do_dict(self, op, ev, A):
        s = self.content(op, ev)
        return dict(val=json.dumps(tag(ReadDictString(s))))


if __name__ == '__main__':
    main(Util)
