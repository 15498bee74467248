# gen_parts.py: writes harness/parts.inc, the accessors of every class of nodes and elements
import re,glob
R='/repo/include/mizugaki/ast/'
out=['// Accessors of every node and element class, from their headers. Written by tools/gen_parts.py.']
for f in sorted(glob.glob(R+'**/*.h',recursive=True)):
    s=open(f).read()
    ns=re.search(r'^namespace mizugaki::ast::?([\w:]*) \{',s,re.M)
    if not ns or not ns.group(1): continue
    for m in re.finditer(r'^class (\w+)(?: final)?\s*(?::[^{]*)?\{(.*?)^\};',s,re.M|re.S):
        c=m.group(1); body=m.group(2)
        if c == 'regioned' or 'virtual ' in body and '= 0;' in body: continue
        refs=re.findall(r'\[\[nodiscard\]\][^;{]*?const\s*&\s*(\w+)\(\) const noexcept\s*[;{]',body)
        vals=[v for v in re.findall(r'\[\[nodiscard\]\][^;{&]*?\b(\w+)\(\) const noexcept(?: override)?\s*[;{]',body) if v not in refs and not v in('node_kind','region','clone')]
        non=re.findall(r'\[\[nodiscard\]\][^;{]*?&\s*(\w+)\(\) noexcept\s*[;{]',body)
        nonv=re.findall(r'\[\[nodiscard\]\][^;{&]*?\b(\w+)\(\) noexcept\s*[;{]',body)
        if not refs and not vals: continue
        q='ma::'+ns.group(1)+'::'+c
        out.append('template<class F> void parts(%s const& n, F& f) { %s%s%s}'%(q, 'auto& m = const_cast<%s&>(n); '%q if any(r in non+nonv for r in refs+vals) else '',
          ''.join(('f("%s", n.%s(), m.%s()); '%(r,r,r)) if r in non else 'f("%s", n.%s()); '%(r,r) for r in refs),
          ''.join(('f("%s", n.%s()); f("%s", m.%s()); '%(r,r,r,r)) if r in non+nonv else 'f("%s", n.%s()); '%(r,r) for r in vals)))
open("/verif/harness/parts.inc","w").write("\n".join(out)+"\n")
