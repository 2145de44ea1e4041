"""Copies and moves made by every operation on options of generated classes, by value category."""
import os, random, importlib.util
_s = importlib.util.spec_from_file_location('combos', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'combos.py')); combos = importlib.util.module_from_spec(_s); _s.loader.exec_module(combos)
SUMMARY = {}
def generate(d, seed, tier):
    files, per = (2, 12) if tier == 'quick' else (6, 20); r = random.Random('p23-%s-%s' % (seed, tier)); out = []
    for t in range(files):
        s = '#include "cats.hpp"\n'
        for i in range(per):
            n = 'g%d_S%d' % (t, i); s += combos.one(r, n) + 'REG("categories of %s", (&conduct::cats<%s>));\n' % (n, n)
        p = os.path.join(d, 'p23_g%d.cpp' % t); open(p, 'w').write(s); out.append(p)
    SUMMARY.update({'generated classes': files * per})
    return out
