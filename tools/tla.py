"""Compiles the discrete Quint models to TLA+ for TLC (spec/tlc); run after changing one of them.

spec/tlc/<main>.tla carries the digest of the Quint sources it comes from; checks refuse a stale one.
Apalache.tla and Variants.tla there are the definitions shipped with Apalache 0.58.0 (Apache license)."""
import os, re, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import core

for main, (model, _) in core.TLC_MODELS.items():
    if len(sys.argv) > 1 and main not in sys.argv[1:]:
        continue
    with tempfile.TemporaryDirectory() as d:
        r = subprocess.run(['quint', 'compile', '--target', 'tlaplus', '--main', main, '--invariant', 'inv', os.path.join(core.SPEC, model)],
                           capture_output=True, text=True, cwd=d)
    i = r.stdout.find('-------')
    if i < 0:
        sys.exit(r.stdout + r.stderr)
    t = r.stdout[i:]
    t = re.sub(r'\(\*\s*@type:.*?\*\)\s*?\n?', '', t, flags=re.S)
    t = '\n'.join(l for l in t.replace(f'{main}_{model[:-4]}_', '').splitlines() if l.strip()) + '\n'
    with open(os.path.join(core.SPEC, 'tlc', main + '.tla'), 'w') as f:
        f.write(f'\\* from {model}, digest {core.spec_digest(model)}\n' + t)
    print(main)
