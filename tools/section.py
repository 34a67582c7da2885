"""section.py ID TITLE < text : inserts a property section into DESIGN.md before 'Known findings'."""
import os, re, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'DESIGN.md')
s = open(p).read()
pid, title = sys.argv[1:3]
s = re.sub(r'\n### %s .*?(?=\n##)' % pid, '', s, flags=re.S)
s = s.replace('\n## Known findings', '\n### %s %s\n%s\n\n## Known findings' % (pid, title, sys.stdin.read().strip()), 1)
open(p, 'w').write(re.sub(r'\n{3,}', '\n\n', s))
