#!/usr/bin/env python3
"""Appends the fix commits of /repo to known-findings.txt (run by hand after a fix commit)."""
import subprocess
P={'8082502':'C06','50d9651':'C05','0eb860b':'C25','7e29d30':'C22','5644398':'C02','35ca7f3':'C14','427383c':'C08','2e93775':'C04','9abdaf7':'C17','ec556bd':'C17','2fa3a66':'C02','eac517d':'C09','09264df':'C14','c79ca7e':'C26','1c3f032':'C26','31f9379':'C13','7ff8994':'C01','6e9dba8':'C18','5dec31e':'C01','48891b8':'C01','341bc92':'C26','dc7e1bd':'C05','11d2a62':'C05','9a000be':'C05','307e727':'C08','d40fc84':'C06','00d0bc6':'C06','b6c1085':'C02','4ddaeca':'C06','8318e0e':'C02','7a8c0a4':'C20','32e0809':'C04','4a96d12':'C23','050239d':'C11','cdb853a':'C12','1ef52fc':'C10','209bf79':'C08','d6fb5c5':'C21','377ceff':'C07','d78d3ac':'C01','9f8bec9':'C10','41edc0c':'C11','9f76828':'C04','fe01371':'C03','b2a9a93':'C03'}
try: extra=dict(l.split() for l in open('/verif/tools/fixprops.txt') if l.strip())
except FileNotFoundError: extra={}
P.update(extra)
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','6c22a16..HEAD'],capture_output=True,text=True).stdout
out=[]
for l in log.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    out.append(f"fixed: property={P[h]} {h} {s[4:].strip()}")
f='/verif/known-findings.txt'
try: known=[l.rstrip('\n') for l in open(f) if l.startswith('known:')]
except FileNotFoundError: known=[]
open(f,'w').write('''# Genuine defects found in lyraproj/puppet-parser.
#   fixed: property=<id> <commit> <what failed>    repaired in /repo; suppresses nothing
#   known: property=<id> match=<regexp> :: <what fails>    recorded, not repaired; a failing case whose report matches
#                                                          the regexp is printed as KNOWN-FINDING
'''+'\n'.join(out+known)+'\n')
