#!/usr/bin/env python3
"""writes known_findings.json: 'findings' are kept as they are, 'fixed' is listed from /repo's fix: commits"""
import json, os, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = os.path.join(ROOT, 'known_findings.json')
RULES = [   # first match decides
    ('plot_values', 'P13'), ('norm of a residual', 'P11'),
    ('lucp', 'P16'), ('null vectors', 'P16'), ('pseudo', 'P16'), ('can use the QR', 'P16'), ('bordered solver', 'P16'), ('solve_null', 'P16'), ('orthogonal to the tangent', 'P16'),
    ('Hilbert space functional', 'P15'), ('keeps the columns apart', 'P15'), ('searches deflate', 'P15'), ('print options', 'P05'),
    ('the callables it is given', 'P09'), ('callable that returns the wrong number', 'P09'), ('coefficients is not resolved', 'P09'), ('test point is passed', 'P09'), ('a composition passes arrays', 'P09'),
    ('starting state', 'P11'), ('keeps hscale', 'P13'), ('asfun', 'P03'), ('saving was interrupted', 'P07'), ('loading an unresolved', 'P07'),
    ('iterate functions', 'P12'), ('must not modify its coefficients', 'P01'), ('must not simplify the function', 'P01'),
    ('QR factorisation must not prolong', 'P01'), ('building a functional', 'P01'), ('must not prolong its operands', 'P01'),
    ('must not prolong them', 'P01'), ('must not prolong the right operand', 'P01'), ('does not scale the operand', 'P01'),
    ('must not modify the operands', 'P01'), ('Fourier function must not modify it', 'P01'),
    ('must not share', 'P02'), ('shared coefficients', 'P02'), ('are copies', 'P02'), ('fliplr copies', 'P02'),
    ('save and load', 'P07'), ('warning filters', 'P08'), ('memoised', 'P06'), ('third derivative matrix', 'P06'), ('ultraspherical coefficients', 'P06'),
    ('adaptive driver does not prolong', 'P14'), ('ChebOp', 'P11'), ('states', 'P13'), ('a state', 'P13'), ('parameter', 'P13'),
    ('linearised operator', 'P11'), ('projection operator', 'P11'), ('row deletion', 'P11'), ('exact linear solver', 'P11'),
    ('multiplication by a constant Fourier', 'P11'), ('GIANT', 'P10'), ('solver', 'P10'), ('newton', 'P10'), ('qnerr', 'P10'),
    ('nleq_err', 'P10'), ('NewtonSeeker', 'P10'), ('happiness', 'P09'), ('never start sampling', 'P09'),
]
known = json.load(open(P)) if os.path.exists(P) else {'findings': []}
fixed = []
for ln in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = ln.split(' ', 1)
    if s.startswith('fix: '):
        s = s[5:]
        prop = next((p for k, p in RULES if k.lower() in s.lower()), 'P03')
        fixed.append('fixed: property=%s %s %s' % (prop, h, s))
json.dump(dict(findings=known['findings'], fixed=fixed), open(P, 'w'), indent=1)
