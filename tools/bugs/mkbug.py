import os, subprocess, json, shutil, textwrap
def bug(id, prop, edits, needs, breaks, demo, extra=()):
    d=f'/verif/seeded/{id}'; w='/tmp/mk'
    shutil.rmtree(w, ignore_errors=True); subprocess.check_call(['git','clone','-q','/repo',w])
    for f,o,n in edits:
        p=f'{w}/comb_spec_searcher/{f}'; s=open(p).read(); assert s.count(o)==1,(id,f,s.count(o)); open(p,'w').write(s.replace(o,n))
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',w,'diff'],text=True))
    open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d+'/demo.py','w').write(textwrap.dedent(demo).lstrip())
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    for e in extra: shutil.copy(e,d)
    shutil.rmtree(w); print(id)
