"""Plumbing: run TLC to generate behaviours, run drivers on them against the real
library, run TLC to judge the recorded traces.  No verdict is formed here."""
import os, sys, json, re, subprocess, time, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
TLA = '/opt/veriftools/tla'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class Broken(Exception):
    """the machinery itself failed (neither pass nor violation)"""


class Engine:
    def __init__(self, scratch):
        self.scratch = scratch
        self.classes = None
        self.states = 0
        self.models = []
        self.transitions = 0
        self.n = 0
        self.tlc_runs = 0
        self.java()

    def sub(self, name):
        self.n += 1
        d = os.path.join(self.scratch, f'{name}{self.n}')
        os.makedirs(d)
        return d

    # -- java override ---------------------------------------------------------
    def java(self):
        if self.classes:
            return self.classes
        src = os.path.join(VERIF, 'java', 'CNum.java')
        h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
        for base in (os.path.join(VERIF, 'build'), self.scratch):
            d = os.path.join(base, 'classes')
            stamp = os.path.join(d, 'stamp-' + h)
            if os.path.exists(stamp):
                self.classes = d
                return d
            try:
                tmp = d + f'.tmp{os.getpid()}'
                os.makedirs(tmp, exist_ok=True)
                subprocess.run(['javac', '-nowarn', '-cp', f'{TLA}/tla2tools.jar', '-d', tmp, src],
                               check=True, capture_output=True)
                open(os.path.join(tmp, 'stamp-' + h), 'w').close()
                if os.path.isdir(d):
                    shutil.rmtree(d, ignore_errors=True)
                os.rename(tmp, d)
                self.classes = d
                return d
            except OSError:
                continue
            except subprocess.CalledProcessError as e:
                raise Broken('javac: ' + e.stderr.decode()[-500:])
        raise Broken('no place to compile CNum.java')

    def tlc(self, module, cfg, extra=(), env=None, timeout=800, mem='2g'):
        d = self.sub('tlc')
        cfgf = os.path.join(d, 'm.cfg')
        open(cfgf, 'w').write(cfg)
        cp = f'{self.java()}:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
        cmd = ['java', f'-Xmx{mem}', '-Xss64m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4',
               f'-DTLA-Library={VERIF}/spec', f'-Djava.io.tmpdir={d}', '-cp', cp, 'tlc2.TLC', *extra, '-config', cfgf,
               '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
               os.path.join(VERIF, 'spec', module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        out = os.path.join(d, 'out')
        with open(out, 'w') as fo:
            p = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout)
        self.tlc_runs += 1
        txt = open(out, errors='replace').read()
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        return p.returncode, txt

    @staticmethod
    def printed(txt):
        r = []
        for l in txt.split('\n'):
            if l.startswith('"@@'):
                r.append(json.loads(json.loads(l)[2:]))
        return r

    def count(self, txt):
        m = re.findall(r'([\d,]+) states generated', txt)
        g = int(m[-1].replace(',', '')) if m else 0
        m = re.findall(r'([\d,]+) distinct states found', txt)
        dd = int(m[-1].replace(',', '')) if m else 0
        return g, dd

    # -- stages -----------------------------------------------------------------
    def generate(self, module, consts, num, seed, depth=80, invs=(), nproc=None, timeout=800):
        """TLC -simulate; returns the list of printed behaviours"""
        nproc = max(1, min(nproc or NPROC, (num + 19) // 20))
        cfg = ('CONSTANTS\n' + ''.join(f' {k} = {v}\n' for k, v in consts.items()) if consts else '') + \
            'SPECIFICATION Spec\n' + ''.join(f'INVARIANT {i}\n' for i in invs) + 'CHECK_DEADLOCK FALSE\n'

        def one(k):
            n = num // nproc + (1 if k < num % nproc else 0)
            rc, txt = self.tlc(module, cfg, ['-simulate', f'num={n}', '-depth', str(depth), '-seed',
                                             str(seed * 1000 + k), '-deadlock'], timeout=timeout)
            if 'is violated' in txt or 'Error:' in txt:
                raise Broken(f'generator {module}: ' + txt[txt.find('Error:'):][:1500])
            return txt
        with ThreadPoolExecutor(nproc) as ex:
            txts = list(ex.map(one, range(nproc)))
        out, seen = [], set()
        for t in txts:
            for b in self.printed(t):
                key = json.dumps(b, sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    out.append(b)
            m = re.findall(r'number of states generated: ([\d,]+)', t) or \
                re.findall(r'([\d,]+) states checked', t)
            if m:
                g = int(m[-1].replace(',', ''))
                self.states += g
                self.transitions += max(0, g - t.count('"@@'))
        return out

    def enumerate(self, module, consts, invs=(), props=(), extra=(), workers=1, timeout=800, mem='8g', env=None, spec='Spec'):
        """exhaustive TLC run; returns printed values, (generated, distinct)"""
        cfg = ('CONSTANTS\n' + ''.join(f' {k} = {v}\n' for k, v in consts.items()) if consts else '') + \
            f'SPECIFICATION {spec}\n' + ''.join(f'INVARIANT {i}\n' for i in invs) + \
            ''.join(f'PROPERTY {i}\n' for i in props) + 'CHECK_DEADLOCK FALSE\n'
        rc, txt = self.tlc(module, cfg, ['-workers', str(workers), '-deadlock', *extra], timeout=timeout, mem=mem, env=env)
        if rc != 0 or 'Model checking completed. No error' not in txt:
            raise Broken(f'model {module} {consts}: ' + txt[max(0, txt.find('Error:')):][:2000])
        g, d = self.count(txt)
        self.states += d
        self.transitions += g
        self.models.append(dict(module=module, constants=consts, generated=g, distinct=d))
        return self.printed(txt), (g, d)

    def drive(self, driver, behaviours, timeout=800):
        """replay on the real library; returns the list of recorded traces"""
        n = max(1, min(NPROC, len(behaviours)))

        def one(k):
            d = self.sub('drv')
            part = behaviours[k::n]
            fi, fo = os.path.join(d, 'in'), os.path.join(d, 'out')
            with open(fi, 'w') as f:
                for b in part:
                    f.write(json.dumps(b) + '\n')
            env = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE='1',
                       OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', HOME=d,
                       VERIF_REPO=REPO, TMPDIR=d)
            p = subprocess.run([PY, os.path.join(VERIF, 'py', driver), fi, fo], cwd=d, env=env,
                               capture_output=True, timeout=timeout)
            got = []
            if os.path.exists(fo):
                for l in open(fo):
                    try:
                        got.append(json.loads(l))
                    except ValueError:
                        break
            if p.returncode != 0:
                if len(got) < len(part):
                    err = p.stderr.decode(errors='replace')[-1500:]
                    raise Broken(f'{driver} exited {p.returncode}: {err}')
            shutil.rmtree(d, ignore_errors=True)
            return got
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, range(n)))
        return [t for r in res for t in r]

    def judge(self, module, traces, timeout=850):
        """check recorded traces against the trace specification; returns verdicts"""
        if not traces:
            return []
        n = max(1, min(NPROC, (len(traces) + 3) // 4))

        def one(k):
            d = self.sub('tr')
            part = traces[k::n]
            f = os.path.join(d, 'traces.ndjson')
            with open(f, 'w') as fo:
                for t in part:
                    fo.write(json.dumps(t) + '\n')
            rc, txt = self.tlc(module, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n',
                               ['-workers', '1', '-deadlock'], env=dict(TRACEFILE=f), timeout=timeout)
            if rc != 0 or 'Model checking completed. No error' not in txt:
                keep = os.environ.get('VERIF_KEEP')
                if keep:
                    shutil.copy(f, keep)
                raise Broken(f'{module}: ' + txt[max(0, txt.find('Error')):][:2500])
            g, dd = self.count(txt)
            shutil.rmtree(d, ignore_errors=True)
            return self.printed(txt), g, dd
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, range(n)))
        out = []
        for v, g, dd in res:
            out += v
            self.states += dd
            self.transitions += dd      # a tree of single-successor chains: one less per trace
        self.transitions -= len(traces)
        return out
