#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json from the tables below (run by hand; both are committed)."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = {
 'C01': 'TLC enumerates all normal forms for small determinants and proves the list law on the model; every list the real code returns (dets up to 60 in 2D, 24 in 3D, 1D and 4D samples) is compared with the specified set.',
 'C02': 'Column-operation words generated by TLC are replayed; every decomposition is checked exactly (H.U = A, unimodular, canonical) over the integers.',
 'C03': 'Basis changes, sublattices, scaled and turned bases; equality decided exactly with a gap (1e-9 / 1e-3) in which nothing is judged.',
 'C04': 'Aut of every small integral form model-checked; reported groups of Bravais, turned, skewed lattices judged exactly.',
 'C05': 'Completeness against Aut(G) enumerated by the specification; membership probes on both sides.',
 'C06': 'All query/spoil histories of the object model up to the depth are replayed on real objects and compared with fresh ones.',
 'C07': 'Geometry recomputed with exact sine/cosine series; centring points of each type.',
 'C08': 'Validity decision table model-checked; constructor and description probed on both sides.',
 'C09': 'Index walks model-checked; conversions judged as vectors in space.',
 'C10': 'Subgroup lattices of the cubic and hexagonal groups generated by TLC; all pairs replayed in shuffled order.',
 'C11': 'Orbit-stabiliser enumeration model-checked for all 30 subgroups; the pairs (group, stretch) are replayed.',
 'C12': 'All setU/setLaue histories up to depth 3 (thorough 4) replayed; every object looked at after every call.',
 'C13': 'Walks of correspondences model-checked; incidence and mapping laws judged exactly.',
 'C14': 'Quarter-turn words model-checked and replayed; general angles against exact trigonometric series.',
 'C15': 'Distances recomputed exactly from the logged matrices, batched sizes around the switch at 100 included.',
 'C16': 'Resumable odometer model-checked over all shrink schedules, which are replayed on the real generator; 1D to 9D.',
 'C17': 'The pruned search is model-checked; real searches are judged against an exhaustive enumeration in the specification.',
 'C18': 'Every solution of real searches of both algorithms is recomputed exactly from its integer correspondence.',
 'C19': 'Orbits of sublattices computed by the specification; chunked reductions replayed.',
 'C20': 'All completion schedules of a small pool model-checked and replayed on the real merge with a controlled pool; real pools too.',
 'C21': 'Transvection tree model-checked; real optimisations judged against the exact ball of three shears.',
 'C22': 'The reduction loop is model-checked on small integer bases; results judged exactly (Gram-Schmidt, same lattice, exchange condition).',
 'C23': 'Twin relation decided exactly from eigenvalue counts and 180 degree rotations of the group.',
 'C24': 'Twinning equation evaluated exactly on the returned triples.',
 'C25': 'Habit plane equation and compatibility evaluated exactly, existence decided by a sign argument on an exact polynomial.',
 'C26': 'Compatibility decided by exact inertia; solver output substituted into the equation.',
 'C27': 'Entry-wise exact comparison with matrix algebra.',
 'C28': 'Corners, bonds and projections recomputed exactly.',
 'C29': 'Writer and reader of the report model-checked (safety and termination); every line the real searches print, log or write to a file is validated in order against the returned solutions.',
 'C30': 'Lower bound, attainment and the radius bound model-checked over all correspondences of a box for bases with known singular values; the values returned by the real minimisation are compared with the closed form, whose eigenvalues TLC brackets by exact inertia counts.'}
TECH = 'TLA+ specification checked with TLC, bound by replaying TLC behaviours into the code and validating recorded executions with TLC'
built = [p['id'] for p in props if os.path.exists(os.path.join(H, 'spec', 'T_%s.tla' % p['id']))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i, 'evidence_file': 'evidence/%s.json' % i,
                 'technique': TECH, 'level': 'model_checking',
                 'level_note': NOTE[i] + ' Assumes TLC and the arithmetic overrides (java/, cross-checked by spec/SelfTest.tla); the code is judged on the executions recorded.'} for i in built],
     'not_applicable': [{'property': p['id'], 'reason': 'specification not written yet'} for p in props if p['id'] not in built],
     'notes': 'No hooks in /repo: the public API exposes the abstract state. Design in DESIGN.md, findings in known_findings.json.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')

FIX = '''b88ebcc C08 BravaisLattice could not be constructed: np.alen does not exist
e077fd9 C08 description of a triclinic lattice showed b as alpha
8974f34 C09 toPrimitive()/toConventional() did not forward their argument
ed4086a C06 lattices shared arrays with the arguments they were built from and with their answers
e76464c C08 a dimension other than 2 and 3 did not raise ValueError
4c0d42a C03 small valid bases were rejected, singular and non-finite ones accepted
936b27c C03 a lattice compared equal to its proper sublattices
141f3ae C04 getlatticegroup() returned the special lattice group
30b7e07 C05 inlatticegroup() failed for matrices of another shape
77a146f C04 point group of a 2D hexagonal lattice missed mirrors off the axes
88df93f C22 LLL failed on integer bases
f8e2fb4 C22 LLL returned bases that are not size-reduced
3a97716 C22 LLL returned None after exactly 100 iterations
0c1aa7f C14 rotation about -x was NaN; the unit was compared by identity
02ac1ac C26 pos_def_sym() accepted negative definite matrices, failed on non-arrays
6c5d357 C12 setU accepted indefinite matrices, and three numbers by mistake for others
2271e93 C12 setLaue(5) gave the wrong group; alpha = 120 was accepted as a trigonal cell
890fb5f C06 Martensite and MatrixGroup shared arrays with their callers
eadb6a9 C23 TwinSystem of a Martensite ignored that Martensite's Laue group
3d25e82 C06 TwinPair shared arrays with its callers
bd97a7d C23 isconventional() answered for the group it was asked about first
1b75ad8 C24 twinparam() returned triples that do not solve the twinning equation
3cf9ed1 C25 volume fractions were reported where 1 is not the middle eigenvalue
e6ef548 C25 habitplanes() failed or ignored the twin type
3c58b5e C27 mat_math failed on Python 3, mat_trace read uninitialised memory
4f4228f C26 isCompatible() accepted any middle eigenvalue up to 1
4f4eed0 C26 AM_Solver failed when all eigenvalues are on one side of 1
2573b40 C28 UnitCell could not be constructed
ddcfe42 C15 strain distance of a perfect match failed in 2D
ea9ee6b C16 resuming the vector enumeration skipped vectors
8578c39 C16 resuming left the smaller radius
8d9501f C17 direct search ended with StopIteration when the last slice improved a solution
7b6af46 C17 direct search looped for ever without starting points close by
7b1c5b9 C17 direct search took a singular matrix for a correspondence
eba05d0 C21 the transvection tree failed in 2D
2b7e7b8 C21 the transvection tree pruned moves leading to matrices it never visits
71bcc90 C20 merging solutions depended on the order in which HNFs finish
2f1cfc1 C20 no sublattice size within the threshold: fallback failed
e860ae3 C19 reduce_hnfs did not accept what reduce_hnfs_par passes
11e047a C21 SLNode.is_min() compared a list
4f525c2 C10 hassubgroup() raised for a group of another dimension
bbf7ac0 C12 setU raised LinAlgError or accepted complex input'''
extra = os.path.join(H, 'tools', 'fixes_extra.txt')
if os.path.exists(extra):
    FIX += '\n' + open(extra).read().strip()
kf = []
for l in FIX.splitlines():
    if l.strip():
        h, p, w = l.split(' ', 2)
        full = subprocess.run(['git', '-C', '/repo', 'rev-parse', h], capture_output=True, text=True).stdout.strip()
        assert full, h
        kf.append({'status': 'fixed', 'property': p, 'commit': full, 'what': w, 'text': 'fixed: property=%s %s %s' % (p, h, w)})
json.dump(kf, open(os.path.join(H, 'known_findings.json'), 'w'), indent=1)
open(os.path.join(H, 'known_findings.json'), 'a').write('\n')
n = int(subprocess.run(['git', '-C', '/repo', 'rev-list', '--count', 'HEAD'], capture_output=True, text=True).stdout) - 1
print(len(built), 'checks;', len(kf), 'fixed entries;', n, 'commits in /repo')
