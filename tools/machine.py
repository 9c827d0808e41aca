#!/usr/bin/env python3
"""machine.py PROP TIER VERIF: decides the machine-integer part of a property with Kani, and adds it to its evidence.
Exit 0: held. Exit 1: VIOLATION printed. Anything else: error or undecided."""
import json, os, re, subprocess, sys, time
prop, tier, verif = sys.argv[1:4]
here = f'{verif}/machine'
target = os.environ['CARGO_TARGET_DIR'] + '/machine'
env = dict(os.environ, CARGO_TARGET_DIR=target)
for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN'): env.pop(k, None)
budget = 420 if tier == 'quick' else 2400
start = time.time()

def run(cmd, limit):
    try:
        r = subprocess.run(cmd, cwd=here, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')

rc, out = run(['cargo', 'build', '--release', '--offline'], 600)
if rc != 0:
    print(out[-3000:]); print(f'ERROR: the machine-integer harness for {prop} does not build against /repo'); sys.exit(4)
binary = f'{target}/release/machine'
names = subprocess.run([binary, 'list', prop, tier], stdout=subprocess.PIPE, text=True).stdout.split()
cmd = ['cargo', 'kani', '--lib', '--exact'] + [x for n in names for x in ('--harness', f'proofs::{n}')]
rc, out = run(cmd + ['-j', '6', '--output-format', 'terse'], budget)
open(f'{target}/{prop}.log', 'w').write(out)
failed = sorted(set(re.findall(r'Verification failed for - proofs::(\w+)', out)))
ok = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures', out)
seconds = [float(x) for x in re.findall(r'Verification Time: ([\d.]+)s', out)]
cases, violations, undecided = [], [], []
if not failed and (rc != 0 or not ok or int(ok[1]) != len(names)):
    print(out[-3000:]); print(f'ERROR: Kani did not decide the machine-integer part of {prop}'); sys.exit(3)
for n in failed:
    if len(violations) == 2: undecided.append(n); continue
    rc, out = run(['cargo', 'kani', '-Z', 'concrete-playback', '--concrete-playback=print', '--lib', '--exact', '--harness', f'proofs::{n}'], budget)
    reproduced = False
    for test in re.findall(r'```(.*?)```', out, re.S):
        if '`cover`' in test or 'concrete_vals' not in test: continue
        vals = [''.join(f'{int(b):02x}' for b in re.findall(r'\d+', v)) for v in re.findall(r'^\s*vec!\[([^\]]*)\],?\s*$', test, re.M)]
        p = subprocess.run([binary, 'replay', n] + vals, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 1:
            path = f'{verif}/evidence/replay/{prop}-{n}.txt'
            os.makedirs(os.path.dirname(path), exist_ok=True)
            open(path, 'w').write(f'machine replay {n} {" ".join(vals)}\nvalues, in the order in which the harness asks for them:\n{p.stdout}')
            print(p.stdout)
            print(f'VIOLATION property={prop} replay={path}')
            reproduced = True
            break
    (violations if reproduced else undecided).append(n)
for n in names: cases.append({'case': 'machine: ' + n, 'bounds': 'every bit pattern of every operand; multiplication beyond 16 bits by operands between -8 and 8 only' if n.startswith(('diff', 'wrap')) else 'every bit pattern of every operand', 'exhausted': n not in undecided, 'engine': 'Kani 0.68 (CBMC 6.11, CaDiCaL)', 'violated': n in violations})
path = f'{verif}/evidence/{prop}.json'
e = json.load(open(path))
e['wall_s'] = round(e['wall_s'] + time.time() - start, 2)
e['violations'] += len(violations)
c = e['coverage']
c['cases'] += len(names); c['cases_exhausted'] += len(names) - len(undecided)
c['per_case'] += cases
c['kani'] = {'harnesses': len(names), 'verified': len(names) - len(failed), 'solver_and_symex_s': round(sum(seconds), 2)}
c['counterexamples_replayed'] += len(violations)
if undecided: c['exhausted_within_bounds'] = False
c['solver'] += '; CaDiCaL through CBMC 6.11 (Kani 0.68)'
json.dump(e, open(path, 'w'), indent=1)
print(f'{prop} machine integers: {len(names)} harnesses, {len(violations)} violated, {len(undecided)} undecided, {sum(seconds):.1f}s solver, {time.time()-start:.1f}s wall')
sys.exit(1 if violations else 3 if undecided else 0)
