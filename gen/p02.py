"""Lifetime events of operations on options of generated classes."""
import os, random, importlib.util
_s = importlib.util.spec_from_file_location('combos', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'combos.py')); combos = importlib.util.module_from_spec(_s); _s.loader.exec_module(combos)
SUMMARY = {}
def generate(d, seed, tier):
    files, per = (1, 40) if tier == 'quick' else (4, 60); r = random.Random('p02-%s-%s' % (seed, tier)); out = []
    for t in range(files):
        s = '#include "conduct.hpp"\n'
        for i in range(per):
            n = 'g%d_S%d' % (t, i); s += combos.one(r, n) + 'REG("life of %s", (&conduct::life<%s>));\n' % (n, n)
        p = os.path.join(d, 'p02_g%d.cpp' % t); open(p, 'w').write(s); out.append(p)
    SUMMARY.update({'generated classes': files * per})
    return out
