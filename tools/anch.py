import sys,subprocess,importlib
sys.path.insert(0,'/verif/tools/plants')
m=importlib.import_module(sys.argv[1])
for e in m.PLANTS:
    src={}
    for f,o,n in e['edits']:
        if f not in src:
            r=subprocess.run(['git','-C','/repo','show','HEAD:'+f],capture_output=True,text=True)
            if r.returncode: print(e['id'],'no file',f); src[f]=None; continue
            src[f]=r.stdout
        if src[f] is None: continue
        c=src[f].count(o)
        if c!=1: print(e['id'],f,'occurs',c,repr(o[:70]))
        src[f]=src[f].replace(o,n)
