#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property on /repo's current tree
check.py replay FILE           re-run one recorded counterexample
exit 0: held on everything explored; 1: VIOLATION; 2: the machinery failed"""
import os, sys, json, time, tempfile, shutil, random, collections, hashlib, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'py'))
sys.dont_write_bytecode = True
from engine import Engine, Broken
from families import FAMILIES, PLAN, DEEP
KNOWN = os.path.join(HERE, 'known_findings.json')
OUT = os.path.join(HERE, 'evidence')
QUICK_LIMIT, THOROUGH_LIMIT = 780, float(os.environ.get('VERIF_BUDGET', '3000'))


def say(*a):
    print(*a, flush=True)


def judge_batch(e, fam, behaviours, rnd, mutants=6):
    """drive and judge; returns traces, verdicts by id, and the mutants' score"""
    for i, b in enumerate(behaviours):
        b['id'] = i
    traces = e.drive(fam.driver, behaviours)
    muts = {}
    pool = list(traces)
    rnd.shuffle(pool)
    for t in pool:
        if len(muts) >= mutants:
            break
        p = fam.perturb(t, rnd)
        if p:
            p[0]['id'] = 1000000 + len(muts)
            muts[p[0]['id']] = (p[0], p[1], t['id'])
    verdicts = e.judge(fam.judge, traces + [m[0] for m in muts.values()])
    real = [v for v in verdicts if v['id'] < 1000000]
    hit = {v['id']: v['ei'] for v in verdicts if v['id'] >= 1000000}
    broken_ids = {v['id'] for v in real}
    # a mutant of a trace that fails anyway says nothing
    muts = {k: m for k, m in muts.items() if m[2] not in broken_ids}
    rejected = sum(1 for k, m in muts.items() if hit.get(k) == m[1])
    return traces, real, (len(muts), rejected)


def save(prop, famname, arg, b, trace, v):
    d = os.path.join(OUT, 'replay')
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, family=famname, arg=arg, behaviour=b, verdict=v,
                event=trace['ev'][v['ei'] - 1])
    h = hashlib.sha256(json.dumps(b, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, f'{prop}-{famname}-{arg}-{h}.json')
    with open(p, 'w') as f:
        json.dump(body, f, indent=1)
    return p


def run_known(e, prop):
    """the listed findings of this property, each identified by its own behaviour"""
    viol, lines = [], []
    if not os.path.exists(KNOWN):
        return viol, lines, 0
    entries = [k for k in json.load(open(KNOWN))['findings'] if k['property'] == prop]
    n = 0
    for k in entries:
        fam = FAMILIES[k['family']]
        b = dict(k['behaviour'], id=0)
        tr = e.drive(fam.driver, [b])
        vs = [v for v in e.judge(fam.judge, tr)]
        n += len(tr)
        if not vs:
            continue
        v = vs[0]
        if v['ei'] == k['ei'] and set(v['cls']) == set(k['cls']):
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif prop in v['props']:
            viol.append((k['family'], 'known', b, tr[0], v))
    return viol, lines, n


def main():
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed0 = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = QUICK_LIMIT if tier == 'quick' else THOROUGH_LIMIT
    scratch = tempfile.mkdtemp(prefix='vchk-')
    code = 2
    try:
        e = Engine(scratch)
        rnd = random.Random(seed0)
        stats = collections.Counter()
        kinds = collections.Counter()
        per = {}
        samples = []
        viol, lines, nk = run_known(e, prop)
        ntr = nk
        mt, mr = 0, 0
        rounds = 0
        while True:
            seed = seed0 + 1000 * rounds
            for famname, arg, variant, num in PLAN[prop] + (DEEP.get(prop, []) if tier != 'quick' and rounds == 0 else []):
                fam = FAMILIES[famname]
                if tier != 'quick':
                    num *= 3
                every = fam.generate(e, num, seed, arg, variant)
                if not every:
                    raise Broken(f'{famname}/{arg}: no behaviours generated')
                for k in range(0, len(every), 2500):
                    bs = every[k:k + 2500]
                    traces, vs, (a, b_) = judge_batch(e, fam, bs, rnd)
                    mt, mr = mt + a, mr + b_
                    ntr += len(traces)
                    per[f'{famname}/{arg}/{variant}'] = per.get(f'{famname}/{arg}/{variant}', 0) + len(traces)
                    for t in traces:
                        for ev in t['ev']:
                            kinds[ev['k'] + ('' if ev['out'] == 'ok' else '!')] += 1
                    if traces and len(samples) < 6:
                        t = rnd.choice(traces)
                        samples.append(dict(family=famname, arg=arg, seed=seed, operations=[
                            ev['k'] + ('' if ev['out'] == 'ok' else ':' + ev['exc']) for ev in t['ev']][:40]))
                    byid = {t['id']: t for t in traces}
                    bb = {b['id']: b for b in bs}
                    for v in vs:
                        if prop in v['props']:
                            viol.append((famname, arg, bb[v['id']], byid[v['id']], v))
                        else:
                            stats['verdicts for other properties'] += 1
                    if len(viol) >= 3:
                        break
                if len(viol) >= 3:
                    break
            rounds += 1
            if tier == 'quick' or viol or time.time() - t0 > limit * 0.7:
                break
        if mt >= 8 and mr == 0 and not viol:
            raise Broken(f'binding demonstration: none of {mt} falsified records was rejected')
        for l in lines:
            say(l)
        for famname, arg, b, t, v in viol[:5]:
            p = save(prop, famname, arg, b, t, v)
            ev = t['ev'][v['ei'] - 1]
            say(f"  {famname}/{arg}: event {v['ei']} ({ev['k']}) fails {','.join(v['cls'])}"
                + (f" [{ev['exc']}: {ev.get('msg', '')}]" if ev.get('exc') else ''))
            say(f'VIOLATION property={prop} replay={p}')
        evid = dict(property=prop, tier='quick' if tier == 'quick' else 'thorough', seed=seed0,
                    level='model_checking',
                    coverage=dict(states=e.states, transitions=e.transitions,
                                  traces_validated_against_impl=ntr,
                                  samples=samples,
                                  behaviours=per, events={k: kinds[k] for k in sorted(kinds)},
                                  falsified_records=dict(tried=mt, rejected=mr),
                                  models=e.models, rounds=rounds, other=dict(stats)),
                    assumptions=ASSUME.get(prop, []) + ASSUME['*'],
                    wall_s=round(time.time() - t0, 1), violations=len(viol))
        os.makedirs(OUT, exist_ok=True)
        with open(os.path.join(OUT, prop + '.json'), 'w') as f:
            json.dump(evid, f, indent=1)
        say(f"{prop} {tier}: {ntr} recorded behaviours, {sum(kinds.values())} events, {e.states} specification states, "
            f"{mr}/{mt} falsified records rejected, {len(viol)} violations, {time.time() - t0:.0f} s")
        code = 1 if viol else 0
    except Broken as ex:
        say('BROKEN:', ex)
    except Exception:
        traceback.print_exc()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def replay(path):
    r = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='vchk-')
    try:
        e = Engine(scratch)
        fam = FAMILIES[r['family']]
        b = dict(r['behaviour'], id=0)
        tr = e.drive(fam.driver, [b])
        vs = e.judge(fam.judge, tr)
        for v in vs:
            say(json.dumps(v))
            say(json.dumps(tr[0]['ev'][v['ei'] - 1], indent=1)[:3000])
            if r['property'] in v['props']:
                say(f"VIOLATION property={r['property']} replay={path}")
        return 1 if any(r['property'] in v['props'] for v in vs) else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


ASSUME = {'*': ['IEEE double arithmetic of the library compared with 44-digit arithmetic of the specification within 2e-7 relative (S) or 1e-5 (voltages); networks nearly singular at their own reference impedance are not judged',
                'behaviours sampled by TLC -simulate from the specification; seed fixed by VERIF_SEED']}

if __name__ == '__main__':
    sys.exit(main())
