#!/usr/bin/env python3
"""Rewrites harness/enums.inc from the enumerations of the repository (used once, when
the table of expected names was written and reviewed; the checks read only the table)."""
import re, glob, os, sys
root = sys.argv[1] if len(sys.argv) > 1 else '/repo'
files = sorted(f for d in ('include', 'src') for f in glob.glob(root + '/' + d + '/mizugaki/**/*.h', recursive=True) if 'to_string_view(' in open(f).read())
out = []; inc = []; odd = []
for f in files:
    t = open(f).read(); t = re.sub(r'/\*.*?\*/', '', t, flags=re.S); t = re.sub(r'//[^\n]*', '', t)
    ns = re.search(r'namespace\s+([\w:]+)\s*\{', t).group(1)
    for m in re.finditer(r'enum class (\w+)[^{;]*\{(.*?)\};', t, re.S):
        e = m.group(1)
        if not re.search(r'to_string_view\(\s*%s\b' % e, t): continue
        names = [x.split('=')[0].strip() for x in m.group(2).split(',') if x.strip()]
        body = t[t.index('to_string_view('):]
        inc.append('#include <%s>' % f.split('/include/')[-1].split('/src/')[-1])
        out.append('ENUM(%s, %s)' % (ns.replace('mizugaki::', 'mz::', 1), e))
        for n in names:
            s = re.search(r'case \w+::%s:\s*return "([^"]*)"' % n, body)
            s = s.group(1) if s else None
            if s != n: odd.append((ns, e, n, s))
            out.append('  NAME(%s, "%s")' % (n, s if s is not None else n))
        out.append('END')
open(os.path.dirname(os.path.abspath(__file__)) + '/../harness/enums_inc.h', 'w').write('\n'.join(inc) + '\n')
open(os.path.dirname(os.path.abspath(__file__)) + '/../harness/enums.inc', 'w').write('\n'.join(out) + '\n')
print(len([o for o in out if o.startswith('ENUM')]), 'enums', odd)
