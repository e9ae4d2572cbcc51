"""overrun.py: how often each facet's decoder reads past the end of its bytes
(everything is then 0, so that the later choices are always the simplest)."""
import os, sys, glob, random, importlib
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'pbt')
sys.path.insert(0, HERE)
import run
import core, sut, gens
sut.prepare()
count = {}
byte = gens.D.byte
def spy(self):
    if self.at >= len(self.data):
        count[where] = count.get(where, 0) + 1
        f = sys._getframe(2)
        while f.f_code.co_filename.endswith('gens.py') and f.f_back: f = f.f_back
        sites.setdefault((os.path.basename(f.f_code.co_filename), f.f_code.co_name, f.f_lineno, len(self.data)), [0])[0] += 1
    return byte(self)
gens.D.byte = spy
only = sys.argv[1:]
def fake(size, fn):
    return lambda: fn(gens.D(bytes(random.randrange(256) for _ in range(size)))), size
gens.decoded = fake
for path in sorted(glob.glob(HERE + '/checks/c*.py')):
    name = os.path.basename(path)[:-3]
    if only and name not in only: continue
    m = importlib.import_module('checks.' + name)
    for f in m.FACETS:
        where = name + ' ' + f.name
        sites = {}
        try:
            make, size = f.strategy()
        except Exception as e:
            print(where, 'not decoded', e); continue
        for _ in range(60): make()
        if sites:
            print(where, size, {k: v[0] for k, v in sorted(sites.items(), key=lambda x: -x[1][0])[:6]})
