#!/usr/bin/env python3
"""writes known_findings.json: the fixed defects from /repo's log, and the recorded ones from known/*.json"""
import json, os, subprocess, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # by a piece of the commit's subject
 ('one of its blocks was modified directly', 'C02'), ('re-terminating', 'C02'), ('announced Portnames shared', 'C03'),
 ('not yet solved circuit with announced', 'C03'), ('addblock consumed', 'C12'), ('another number of ports raised', 'C11'),
 ('DEBUG logging made addblock', 'C23'), ('documented dict argument', 'C10'), ('Solution failed when the ports', 'C04'),
 ('position of created', 'C21'), ('refused connect', 'C11'), ('deembed left the port positions', 'C19'),
 ("removed the parameters from the caller's", 'C12'), ('rfRLC.getS returned a list', 'C25'), ('no length anymore', 'C10'),
 ('rfRLC at f=0', 'C18'), ('refused set()', 'C11'), ('rfBase.getS returned a list', 'C25'),
 ("objects kept the caller's ports", 'C12'), ('rfArcObj had no port', 'C26'), ('ConvertGeneral returned only', 'C05'),
 ('S_from_Y called', 'C06'), ('copying re-ran', 'C08'), ('handed out its own cached', 'C12'), ('given gTL', 'C17'),
 ('outer conductor loss', 'C17'), ('attenuation given', 'C17'), ('function without arguments', 'C16'),
 ("rfTRL kept the caller's", 'C12'), ('mixed up the excitations', 'C04'), ('rfObject.maxV compared', 'C21'),
 ('does not exist deeper', 'C09'), ('rfCircuit.maxV left its entry', 'C23'), ('no longer one element', 'C08'),
 ('rfBase.maxV left its entry', 'C23'), ("rfObject kept the caller's", 'C12')]
extra = os.path.join(H, 'tools', 'fixprops.json')
if os.path.exists(extra):
    PROP += [tuple(x) for x in json.load(open(extra))]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).split('\n')
fixed = []
for l in log:
    h, _, s = l.partition(' ')
    if s.startswith('fix: '):
        p = [b for a, b in PROP if a in s]
        if not p:
            raise SystemExit('no property for: ' + s)
        fixed.append(f'fixed: property={p[0]} {h} {s[5:]}')
found = [json.load(open(f)) for f in sorted(glob.glob(os.path.join(H, 'known', '*.json')))]
json.dump(dict(fixed=fixed, findings=found), open(os.path.join(H, 'known_findings.json'), 'w'), indent=1)
print(len(fixed), 'fixed', len(found), 'recorded')
