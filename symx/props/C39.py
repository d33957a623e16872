"""The report put together from its pieces."""
import os
import re
import tempfile

import radvel.report as R

from .C35 import D, World, make_post
from .common import *

import pandas as pd

EXPLANATION = ('radvel report runs to the end in a scratch directory: the real report class, its real tables and templates, with a small script in the place of LaTeX that notes where and with which files '
               'it was called. Which figures were made, which results exist and how the compiler behaves are free choices of the solver; the document is compared with the tables made separately.')
BOUNDS = 'every combination of figures made or not, comparison and derived results present or not, a compiler that works, fails or does not exist; another setup analysed in the same directory'
OUTSIDE = 'LaTeX itself; the contents of the tables (C34) and figures (C36)'

FIGURES = {'rv': 'rv_multipanel', 'corner': 'corner', 'derived': 'corner_derived_pars', 'auto': 'auto', 'trend': 'trends'}
SHOWN = ('rv', 'corner', 'derived')
SCRIPT = '''#!/bin/sh
for last; do :; done
{ pwd; ls; echo; } >> "$(dirname "$0")/log"
%s
'''
WORKS = '{ echo compiled; cat "$last"; } > "${last%.tex}.pdf"'
STATS = [{'AICc': (float(10 + i), 'd'), 'BIC': (20.5 + i, 'd'), 'Free Params': ([p], 'free'), '$N_{\\rm data}$': (8, 'n'), 'RMS': (1.5, 'r')} for i, p in enumerate(('k1', 'e1'))]


def compiler(w, how):
    d = w.d + '/bin'
    os.mkdir(d)
    f = d + '/tex'
    if how != 'missing':
        with open(f, 'w') as g:
            g.write(SCRIPT % (WORKS if how == 'works' else 'exit 1'))
        os.chmod(f, 0o755)
    return f


def calls(w):
    """(directory, files) of each time the compiler ran"""
    try:
        text = open(w.d + '/bin/log').read()
    except IOError:
        return []
    return [(b.split('\n')[0], b.split('\n')[1:]) for b in text.strip().split('\n\n')]


def included(tex):
    return sorted(re.findall(r'\\includegraphics(?:\[[^\]]*\])?\{([^}]*)\}', tex))


def start(ctx):
    w = World(ctx, near=True)
    # the figures of the other setup are there as well
    for f in FIGURES.values():
        open(w.d + '/star_%s.pdf' % f, 'w').write('theirs')
    tmp = w.d + '/tmp'
    os.mkdir(tmp)
    ctx.stub(tempfile, 'tempdir', tmp)
    w.ran('mcmc')
    f = w.status().get('mcmc', 'chainfile')
    pd.DataFrame({'k1': [7.0, 7.5, 8.0], 'gamma_a': [0.5, 1.0, 1.5], 'jit_a': [1.0, 1.25, 1.5], 'gamma_b': [0.5, 1.0, 2.5], 'jit_b': [1.0, 1.25, 2.5],
                  'lnprobability': [-1.0, -2.0, -3.0]}).to_csv(f)
    return w


def derived(w):
    f = w.d + '/derived.csv'
    pd.DataFrame({'mpsini1': [11.0, 12.0, 13.0], 'a1': [1.0, 1.5, 2.0]}).to_csv(f)
    D.save_status(w.statfile, 'derive', {'run': True, 'chainfile': f})


def report(made, results):
    """`radvel report` after `radvel plot` has made some of the figures"""
    def h(ctx):
        w = start(ctx)
        made_ = [t for t in made if ctx.choice('made_' + t, 2) == 1]
        comp, der = [(ctx.choice(n, 2) == 1) if results else False for n in ('compared', 'derived')]
        how = ('works', 'fails', 'missing')[ctx.choice('compiler', 3)]
        if der:
            derived(w)
        if comp:
            D.save_status(w.statfile, 'ic_compare', {'ic': STATS})
        for t in made_:
            f = '%s/%s_%s.pdf' % (w.d, w.base, FIGURES[t])
            open(f, 'w').write('figure ' + t)
            D.save_status(w.statfile, 'plot', {t + '_plot': f})
        tex = compiler(w, how)
        before = set(os.listdir(w.d)) | {'bin'}
        kept = {f: open(w.d + '/' + f, 'rb').read() for f in before if os.path.isfile(w.d + '/' + f)}
        here = os.getcwd()
        error = None
        try:
            D.report(w.args(comptype='ic', latex_compiler=tex))
        except Exception as e:
            error = e
        ctx.check(os.path.realpath(os.getcwd()) == os.path.realpath(here), 'back in the same directory')
        os.chdir(here)
        ctx.check(os.listdir(w.d + '/tmp') == [], 'nothing left in the temporary directory')
        ctx.check(all(open(w.d + '/' + f, 'rb').read() == v for f, v in kept.items() if os.path.exists(w.d + '/' + f)) and set(os.listdir(w.d)) >= before, 'what was there is kept')
        w.undisturbed()
        new = set(os.listdir(w.d)) - before
        name = w.base + '_results'
        ctx.check(error is None or how == 'fails', 'possible with the results it needs')
        ctx.check(name + '.tex' in new and new <= {name + '.tex', name + '.pdf'}, 'the files it writes')
        if name + '.tex' not in new:
            return
        doc = open(w.d + '/' + name + '.tex').read()
        ctx.check(included(doc) == sorted('%s_%s.pdf' % (w.base, FIGURES[t]) for t in made_ if t in SHOWN), 'each figure that was made, once')
        log = calls(w)
        if how == 'missing':
            ctx.check(log == [] and name + '.pdf' not in new, 'no PDF without a compiler')
            return
        ctx.check(len(log) >= 2, 'compiled often enough for references to settle')
        for d, files in log:
            ctx.check(d.startswith(os.path.realpath(w.d) + '/tmp/') or d.startswith(w.d + '/tmp/'), 'compiled in a directory of its own')
            ctx.check(name + '.tex' in files, 'the document is where the compiler runs')
            ctx.check(all('%s_%s.pdf' % (w.base, FIGURES[t]) in files for t in made_), 'the figures are where the compiler runs')
            ctx.check(not [f for f in files if f.startswith('star_') and not f.startswith(w.base)], 'nothing of another setup')
        ctx.check((name + '.pdf' in new) == (how == 'works'), 'a PDF if the compiler made one')
        if how == 'works' and name + '.pdf' in new:
            ctx.check(open(w.d + '/' + name + '.pdf').read() == 'compiled\n' + doc, 'the PDF of this document')
    return h


def document(ctx):
    """the tables of the document are those of the report"""
    w = start(ctx)
    comp, der = ctx.choice('compared', 2) == 1, ctx.choice('derived', 2) == 1
    under = ctx.choice('name', 2) == 1
    w.conf.starname = 'my_star' if under else 'star'
    chains = pd.read_csv(w.status().get('mcmc', 'chainfile'))
    if der:
        chains['mpsini1'], chains['a1'] = [11.0, 12.0, 13.0], [1.0, 1.5, 2.0]
    post = make_post(7.0)
    rep = R.RadvelReport(w.conf, post, chains, 1.25, 2.25, 3.25, 4.25, compstats=STATS if comp else None, derived=der)
    rep.runname = w.base
    here = os.getcwd()
    os.chdir(w.d)
    try:
        doc = rep.texdoc()
    finally:
        os.chdir(here)
    squeeze = lambda s: re.sub(r'\s+', ' ', s).strip()
    doc = squeeze(doc)
    ctx.check(doc.startswith('\\documentclass') and doc.endswith('\\end{document}') and doc.count('\\begin{document}') == 1, 'a complete document')
    ctx.check(included(doc) == [], 'no figures of another setup')
    ctx.check(('my\\_star' in doc) == under and 'my_star' not in doc, 'the name of the star as TeX')
    ctx.check('v' + radvel.__version__ in doc, 'the version that made it')
    T = R.TexTable(rep)
    want = ['tab_params', 'tab_prior_summary', 'tab_crit', 'tab_rv'] + (['tab_derived'] if der else []) + (['tab_comparison'] if comp else [])
    texts = {n: squeeze(getattr(T, n)()) for n in want}
    for n, t in texts.items():
        ctx.check(len(t) > 20 and doc.count(t) == 1, 'the table once: ' + n)
        doc = doc.replace(t, '')
    ctx.check('deluxetable' not in doc and 'tabular' not in doc, 'no other table')


def cases(tier):
    out = [Case('report figures', report(('rv', 'corner', 'derived'), False)), Case('report results', report(('rv', 'auto'), True)), Case('document', document)]
    if tier == 'thorough':
        out.append(Case('report everything', report(('rv', 'corner', 'derived', 'auto', 'trend'), True)))
    return out
