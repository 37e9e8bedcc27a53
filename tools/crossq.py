"""crossq.py [FIRST [LAST]]: packs the behaviour preserving edits of mutants/*.mut into combined trees and runs every check on each;
any check that fails on one is a false alarm (or the edits do not build together)."""
import glob,os,re,subprocess,sys
from concurrent.futures import ThreadPoolExecutor
R=os.environ.get('MUT_REPO','/tmp/seed/repo4')
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def edits():
    for p in sorted(glob.glob(H+'/mutants/*.mut')):
        for b in re.split(r'^### ',open(p).read(),flags=re.M)[1:]:
            head,body=b.split('\n',1); name,exp,*checks=head.split()
            if exp!='Q': continue
            es=[]
            for e in body.strip('\n').split('\n++++\n'):
                f,rest=e.split('\n',1); old,new=rest.split('\n====\n') if '\n====\n' in rest else (rest.split('\n====')[0],'')
                es.append((f,old,new))
            yield os.path.basename(p)[:-4]+':'+name,es
def pack():
    trees=[]
    for n,es in edits():
        fs={f for f,_,_ in es}
        for names,used in trees:
            if len(names)<9 and not fs&used: names.append((n,es)); used|=fs; break
        else: trees.append(([(n,es)],set(fs)))
    return [t[0] for t in trees]
def sh(c):
    r=subprocess.run([sys.executable,H+'/check.py',c,"-v"],env=dict(os.environ,LINT_REPO=R,LINT_CACHE=R.replace('/repo','/cache')),capture_output=True,text=True)
    return c,r.returncode,r.stdout+r.stderr
ids=sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(H+'/rules/c[0-9][0-9].py'))
trees=pack(); a=int(sys.argv[1]) if len(sys.argv)>1 else 0; z=int(sys.argv[2]) if len(sys.argv)>2 else len(trees)
print(len(trees),'trees',[len(t) for t in trees])
for i,t in enumerate(trees[a:z],a):
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    done=[]
    for n,es in t:
        ok=True
        for f,old,new in es:
            p=os.path.join(R,f); s=open(p).read()
            if old not in s: ok=False; break
            open(p,'w').write(s.replace(old,new,1))
        done.append(n if ok else n+'(!)')
    print('tree',i,' '.join(done),flush=True)
    first=sh(ids[0])
    with ThreadPoolExecutor(3) as ex: rs=[first]+list(ex.map(sh,ids[1:]))
    for c,rc,out in rs:
        if rc: print('   ',c,rc,[l[:300] for l in out.split('\n') if 'VIOLATION' in l or l.startswith('violated') or 'error' in l][:3],flush=True)
subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
