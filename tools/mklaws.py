"""LAWS.md: the laws and rules of each property, from their sources."""
import ast, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(here + '/laws/*.py')):
    t = ast.parse(open(f).read())
    base = os.path.basename(f)[:-3]
    for n in t.body:
        if not isinstance(n, ast.ClassDef):
            continue
        prop = None
        for x in n.body:
            if isinstance(x, ast.Assign) and getattr(x.targets[0], 'id', '') == 'prop' and isinstance(x.value, ast.Constant):
                prop = x.value.value
        if not prop:
            continue
        doc = ' '.join((ast.get_docstring(n) or '').split())
        impl = [x for x in n.body if isinstance(x, ast.FunctionDef) and x.name == 'impl']
        args = [a.arg for a in impl[0].args.args] if impl else []
        for p in re.split(r'[,\s]+', prop):
            out.setdefault(p, []).append('`%s.%s(%s)` %s' % (base, n.name, ', '.join(args), doc))
for f in sorted(glob.glob(here + '/rules/*.py')):
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.ClassDef):
            d = {getattr(x.targets[0], 'id', ''): x.value for x in n.body if isinstance(x, ast.Assign)}
            if 'props' in d:
                for p in ast.literal_eval(d['props']).split(','):
                    out.setdefault(p, []).append('rule `%s` %s' % (n.name, ' '.join((ast.get_docstring(n) or '').split())))
with open(here + '/LAWS.md', 'w') as g:
    g.write('# Obligations per property\n\nGenerated by tools/mklaws.py from laws/ and rules/.  '
            'One law stands for one obligation per case and world.\n')
    for p in sorted(out):
        g.write('\n## %s\n\n' % p + ''.join('* %s\n' % x.strip() for x in out[p]))
print({p: len(v) for p, v in sorted(out.items())})
