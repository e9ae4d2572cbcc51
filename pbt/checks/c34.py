import os
import re
import shutil
import subprocess
import sys

import cli
import flow
import gens
from core import Facet, Violation, require

RULE = """Runs in a directory tree of their own with relative and absolute paths
(inputs, outputs and configuration in different directories), outputs that exist
or not, short and long options, detailed or not, and runs in which one input
file, one output directory or the configuration is missing, as well as without
options; in this process and in one of their own. The content of the whole tree
is compared before and after. Non-trivial: a file is written or something is
missing."""
ASSUMPTIONS = ["the configuration names no input file as an output",
               "effects outside the directory tree of the run are not looked at"]
MOST = 20


def case(d):
    here = flow.centres(d)
    c = {'config': flow.config(d.part(flow.CONFIG)),
         'rows': flow.rows(d.part(flow.rows_size(MOST)), MOST, here[:1], False,
                           least=8),
         'model': flow.model(d.part(flow.MODEL), here[:1], hi=2)
         if not d.chance(1, 5) else None,
         'apply': not d.chance(1, 5), 'store': not d.chance(1, 4),
         'stored table': d.bool(), 'absolute': [d.bool() for _ in range(6)],
         'where': [d.choose(['work', 'in', 'out', 'out/deep']) for _ in range(6)],
         'old': [d.bool() for _ in range(4)], 'detailed': d.bool(),
         'options': d.choose(['short', 'long', 'detailed first']),
         'missing': d.choose(['', '', '', '', '', 'eq', 'sm', 'table', 'result', 'pre', 'store',
                              'config', 'nothing', 'version'])}
    if c['missing'] == 'sm' and not c['model']:
        c['missing'] = 'eq'
    if c['missing'] in ('pre', 'store'):
        c['store'] = True
        c['config']['preprocessing_jobs'] = c['config']['preprocessing_jobs'] or ['Stepp']
    if c['missing'] == 'table' or d.chance(1, 6) and not c['missing']:
        c['stored table'] = True
        c['config']['preprocessing_jobs'] = []
    return c


class Tree(object):
    """The files of a case and what is expected to become of them."""

    def __init__(self, c, name):
        self.root = os.path.join(os.getcwd(), name)
        shutil.rmtree(self.root, ignore_errors=True)
        for sub in ('work', 'in', 'out', 'out/deep', 'other'):
            os.makedirs(os.path.join(self.root, sub))
        self.work = os.path.join(self.root, 'work')
        flow.write_text(os.path.join(self.root, 'other', 'notes.txt'), 'notes\n')
        jobs = c['config']['preprocessing_jobs']
        missing = c['missing']
        real, spelled = {}, {}
        for k, key in enumerate(['eq.csv', 'sm.xml', 'table.csv', 'pre.csv', 'result.xml',
                                 'config.yml']):
            sub = c['where'][k]
            if missing + '.csv' == key and key == 'pre.csv' or \
                    missing == 'result' and key == 'result.xml' or \
                    missing == 'store' and key == 'table.csv':
                sub = 'out/none'
            path = os.path.join(self.root, sub, key)
            real[key] = path
            spelled[key] = path if c['absolute'][k] else os.path.relpath(path, self.work)
        flow.write_inputs(c, self.root)
        shutil.move(os.path.join(self.root, 'eq.csv'), real['eq.csv'])
        if c['model']:
            shutil.move(os.path.join(self.root, 'sm.xml'), real['sm.xml'])
        storing = bool(jobs) and c['store']
        retrieving = not jobs and c['stored table']
        cfg = cli.config(
            eq_catalog_file=spelled['eq.csv'],
            source_model_file=spelled['sm.xml'] if c['model'] else None,
            pprocessing_result_file=spelled['pre.csv'] if c['store'] else None,
            completeness_table_file=spelled['table.csv'] if storing or retrieving else None,
            result_file=spelled['result.xml'], apply_processing_jobs=c['apply'])
        cfg.update(c['config'])
        for k in ('preprocessing_jobs', 'processing_jobs'):
            cfg[k] = cfg[k] or None
        self.outputs = {'result.xml'}
        if storing:
            self.outputs |= {'pre.csv', 'table.csv'}
        if retrieving:
            flow.write_text(real['table.csv'], '1950.00000,   4.00000\n')
        for k, key in enumerate(['result.xml', 'pre.csv', 'table.csv']):
            if c['old'][k] and key in self.outputs and \
                    os.path.isdir(os.path.dirname(real[key])):
                flow.write_text(real[key], 'an older file\n' * 500)
        self.log = os.path.join(self.work, 'debug.log')
        if c['old'][3]:
            flow.write_text(self.log, 'older log\n')
        cli.write_config(real['config.yml'], cfg)
        self.gone = {'eq': 'eq.csv', 'sm': 'sm.xml', 'table': 'table.csv',
                     'config': 'config.yml'}.get(missing)
        if self.gone:
            os.remove(real[self.gone])
        self.outputs = {real[k] for k in self.outputs}
        self.result = real['result.xml']
        config = spelled['config.yml']
        detailed = c['detailed']
        if missing == 'nothing':
            self.args = []
        elif missing == 'version':
            self.args = ['-v']
        elif c['options'] == 'short':
            self.args = ['-i', config] + ['-d'] * detailed
        elif c['options'] == 'long':
            self.args = ['--input-file', config] + ['--detailed'] * detailed
        else:
            self.args = ['-d'] * detailed + ['-i', config]
        self.detailed = detailed

    def snapshot(self):
        out = {}
        for path, dirs, files in os.walk(self.root):
            for n in dirs:
                p = os.path.join(path, n)
                out[p] = ('directory', os.stat(p).st_mode)
            for n in files:
                p = os.path.join(path, n)
                with open(p, 'rb') as f:
                    out[p] = (f.read(), os.stat(p).st_mode)
        return out


def judge(c, tree, before, after, error, text):
    """error: how the run failed, or None."""
    def names(paths):
        return sorted(os.path.relpath(p, tree.root) for p in paths)

    changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    missing = c['missing']
    if missing in ('config', 'nothing', 'version'):
        require(not changed, 'without a configuration %s changed', names(changed))
        require(text.strip(), 'nothing was reported')
        require(missing == 'version' or error is None or isinstance(error, SystemExit)
                or isinstance(error, str) and 'Traceback' not in error,
                'the run raised %s', error)
        if missing == 'config':
            require(re.search('error|exist|found|no such|missing|unknown', text, re.I),
                    'the missing configuration is not reported: %s', text)
        return {'nontrivial': True, missing: True}
    allowed = set(tree.outputs)
    if tree.detailed:
        allowed.add(tree.log)
    require(changed <= allowed, '%s changed, only %s may', names(changed - allowed),
            names(allowed))
    gone = {p for p in before if p not in after}
    require(not gone, '%s removed', names(gone))
    if missing:
        require(error is not None, 'no error without %s', missing)
        require(tree.result not in changed, 'there is a result without %s', missing)
        return {'nontrivial': True, 'missing ' + missing: True}
    require(error is None, 'the run ended with %s', error)
    require(allowed <= changed, '%s not written', names(allowed - changed))
    try:
        got = flow.read_result(tree.result)
    except Exception as e:                   # noqa: BLE001
        raise Violation('the result cannot be read: %r' % e) from None
    areas = 1 if not c['model'] else sum(s['kind'] == 'area' for s in c['model']['items'])
    require(len(got) == areas, '%d sources instead of %d', len(got), areas)
    return {'nontrivial': True, 'outputs=%d' % len(tree.outputs): True,
            'detailed': tree.detailed,
            'stored table': not c['config']['preprocessing_jobs'] and c['stored table'],
            'overwrites': any(p in before for p in tree.outputs)}


def check(c):
    flow.preprocess(c)
    here = os.getcwd()
    tree = Tree(c, 'c34')
    before = tree.snapshot()
    os.chdir(tree.work)
    try:
        out = cli.run(*tree.args)
    finally:
        os.chdir(here)
    error = out.error
    if isinstance(error, SystemExit) and error.code in (0, None):
        error = None
    return judge(c, tree, before, tree.snapshot(), error, out.out + out.err)


def check_process(c):
    flow.preprocess(c)
    tree = Tree(c, 'c34p')
    before = tree.snapshot()
    p = subprocess.run([sys.executable, '-B', cli.main_py()] + tree.args, cwd=tree.work,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       universal_newlines=True)
    return judge(c, tree, before, tree.snapshot(),
                 'code %d: %s' % (p.returncode, p.stderr[-800:]) if p.returncode else None,
                 p.stdout + p.stderr)


SIZE = flow.CONFIG + 60 + flow.rows_size(MOST) + flow.MODEL
FACETS = [Facet('tree', lambda: gens.decoded(SIZE, case), check, quick=250,
                thorough=6000),
          Facet('process', lambda: gens.decoded(SIZE, case), check_process, quick=8,
                thorough=200)]
