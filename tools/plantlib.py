import subprocess,sys,os,json
def plant(id,prop,needs,breaks,edits,demo,files={}):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert not subprocess.run("git -C /repo status --porcelain --untracked-files=no",shell=True,capture_output=True,text=True).stdout
    try:
        for f,a,b in edits:
            p='/repo/'+f; s=open(p,encoding='latin-1').read()
            assert s.count(a)==1,(f,a,s.count(a))
            open(p,'w',encoding='latin-1').write(s.replace(a,b))
        diff=subprocess.run("git -C /repo diff",shell=True,capture_output=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -- .",shell=True)
    open(d+'/patch.diff','wb').write(diff)
    for f,a,b in edits:
        ln=open('/repo/'+f,encoding='latin-1').read()
        n0=ln[:ln.index(a)].count('\n')+1
        bl=subprocess.run("git -C /repo blame -s -l -L %d,+%d %s"%(n0,a.count('\n')+1,f),shell=True,capture_output=True,text=True,errors='replace').stdout.splitlines()
        root=subprocess.run("git -C /repo rev-list --max-parents=0 HEAD",shell=True,capture_output=True,text=True).stdout.strip()
        for x in bl:
            if root[:39] not in x: print(id,'NOT ORIGINAL:',x)
    open(d+'/demo.sh','w').write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    for n,t in files.items(): open(d+'/'+n,'w').write(t)
