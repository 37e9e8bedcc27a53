"""muts.py FILE.mut : blocks '### name [expect V|Q] CHECKS' then edits (file\nold\n====\nnew, ++++ between). runs all in sequence with a one line summary"""
import sys,subprocess,os,re
R=os.environ.get('MUT_REPO','/tmp/seed/repo')
def run(checks):
    out=[]
    for c in checks:
        r=subprocess.run([sys.executable,'/verif/check.py',c,'-v'],env=dict(os.environ,LINT_REPO=R,LINT_CACHE=R.replace('/repo','/cache')),capture_output=True,text=True)
        t=(r.stdout+r.stderr)
        m=re.search(r'(\d+) undecided.*?(\d+) violated',t)
        v=[l[:230] for l in t.split('\n') if l.startswith('violated ') or l.startswith('undecided ') or 'VIOLATION' in l][:4]
        out.append((c,r.returncode,m.groups() if m else t[-300:],v))
    return out
txt=open(sys.argv[1]).read(); only=sys.argv[2:]
for b in re.split(r'^### ',txt,flags=re.M)[1:]:
    head,body=b.split('\n',1); name,exp,*checks=head.split()
    if only and name not in only: continue
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    ok=True
    for e in body.strip('\n').split('\n++++\n'):
        f,rest=e.split('\n',1); old,new=rest.split('\n====\n') if '\n====\n' in rest else (rest.split('\n====')[0],'')
        p=os.path.join(R,f); s=open(p).read()
        if old not in s: print(name,'NOT APPLICABLE',repr(old[:80])); ok=False; break
        open(p,'w').write(s.replace(old,new,1))
    if not ok: continue
    for c,rc,m,v in run(checks):
        good={'V':rc==1,'Q':rc==0}[exp]
        print('%-28s %s %s rc=%d undecided/violated=%s %s'%(name,exp,c,rc,m,'' if good else '<<<<<<<<'))
        if not good or (exp=='Q' and isinstance(m,tuple) and m[0]!='0') or '-v' in sys.argv:
            for l in v: print('      ',l)
subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
