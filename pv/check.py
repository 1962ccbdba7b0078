"""python3-vt -m pv.check <property>: decide one property on /repo."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    for line in open(path):
        line = line.strip()
        if line.startswith('finding: property=%s ' % prop):
            out.append(line.split(' ', 2)[2])
    return out


def write_replay(prop, data):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + '.json')
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True, default=str)
    return path


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import search, cases, proofs
    seconds = {'quick': 12, 'thorough': 150}[tier]
    # (a) the deductive proof
    pr = proofs.run(prop, tier)
    if not pr['all_proved'] and (pr['results'] or pr['errors']):
        seconds *= 5                 # the stand-in has to carry it alone
    # (b) the concrete search / bounded stand-in
    known = known_findings(prop)
    sr = search.search(prop, seed, seconds, tier)
    violation = None
    if sr['fail']:
        found = search.settle(prop, sr)
        if found:
            rp = write_replay(prop, dict(found, **{
                'property': prop, 'failed_obligations': pr['failed_names'],
                'how': 'cd /verif && python3-vt -m pv.search <this file>'}))
            r = subprocess.run([PY, '-m', 'pv.search', rp], cwd=HERE,
                               capture_output=True, text=True)
            if r.returncode == 1:
                violation = (rp, '', found['message'])
        if violation is None:
            print('not reproduced in a fresh process: %s' % sr['fail'][2])
    if violation is None and pr['refuted']:
        rp = write_replay(prop, {
            'property': prop, 'obligation': pr['refuted'][0]['name'],
            'refuted': pr['refuted'],
            'note': 'the verifier refuted these obligations; the bounded '
                    'search found no failing input'})
        violation = (rp, ' no-failing-input-found',
                     'refuted obligation %s' % pr['refuted'][0]['name'])
    ev = proofs.evidence(prop, tier, seed, pr, sr)
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = 1 if violation else 0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    c = ev['coverage']
    print('%s: %s obligations, %s discharged, %s; search %s cases; %.1f s' % (
        prop, c.get('obligations'), c.get('discharged'), pr['summary'],
        sr['n'] + sr['enum'], ev['wall_s']))
    if violation:
        print(violation[2])
        print('VIOLATION property=%s replay=%s%s' % (
            prop, violation[0], violation[1]))
        return 1
    return 0


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':   # runs that can be repeated
        os.environ['PYTHONHASHSEED'] = '0'
        os.chdir(HERE)
        os.execv(PY, [PY, '-m', 'pv.check'] + sys.argv[1:])
    sys.exit(main(sys.argv[1]))
