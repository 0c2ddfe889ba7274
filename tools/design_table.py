#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from tools/seeds_def*.py"""
import runpy, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GONE = {'c02-terms', 'c05-north-pole', 'c08-stale'}   # the repository's own tests notice these since the fix: commits
STRENGTHENED = {
 'c26-nan-real': 'yes: extreme finite values',
 'c09-deduce': 'yes: impossible sizes with every ell_min', 'c11-alias': 'yes: objects built from objects', 'c19-nphi': 'yes: n_theta and n_phi given separately',
 'c19-thetaphi': 'yes: directions for n to 500 (C09)', 'c21-sinb': 'yes: negative sin(beta)', 'c24-hcache': 'yes: results kept across later calls',
 'c12-tiny': 'yes: overall scales to 1e-60', 'c12-broadcast': 'yes: weights cancelling along leading axes', 'c14-anyall': 'yes: arrays of constants, some zero',
 'c14-grid-any': 'yes: arrays of constants', 'c19-eval-order': 'yes: layouts of rotor arrays', 'c03-matrix-neg': 'yes: indices with rounding errors', 'c10-ladder': 'yes: indices with rounding errors'}
out = ['| change | needs | caught by | missed at first, check strengthened |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/tools/seeds_def*.py')):
    for s in runpy.run_path(f)['S']:
        out.append('| %s | %s | %s | %s |' % (s['id'] + (' (the tests notice it since the repairs)' if s['id'] in GONE else ''), s['needs'].replace('|', '\\|'), s['prop'], STRENGTHENED.get(s['id'], '')))
p = H + '/DESIGN.md'; t = open(p).read()
a = t.index('<!-- planted -->'); b = t.index('<!-- /planted -->')
open(p, 'w').write(t[:a] + '<!-- planted -->\n' + '\n'.join(out) + '\n' + t[b:])
