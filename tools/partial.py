"""partial.py 'regex' message: commit only hunks (U0) matching the regex"""
import re,subprocess,sys
rx=re.compile(sys.argv[1],re.S); msg=sys.argv[2]
d=subprocess.run('git diff -U0',shell=True,cwd='/repo',capture_output=True,text=True).stdout
files=re.split(r'(?m)^(?=diff --git)',d)[1:]
out=''
for f in files:
    parts=re.split(r'(?m)^(?=@@)',f)
    hs=[h for h in parts[1:] if rx.search(h)]
    if hs: out+=parts[0]+''.join(hs)
open('/tmp/part.diff','w').write(out)
print(len(re.findall('(?m)^@@',out)),'hunks')
r=subprocess.run('git apply --cached --unidiff-zero /tmp/part.diff && git commit -qm "$MSG"',shell=True,cwd='/repo',env={'MSG':msg,'PATH':'/usr/bin:/bin','HOME':'/root'},capture_output=True,text=True)
print(r.stdout,r.stderr)
