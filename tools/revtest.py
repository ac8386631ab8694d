import subprocess,sys,os,shutil
checks=sys.argv[1].split(','); commits=sys.argv[2:]
for c in commits:
    d='/tmp/w/fx'; shutil.rmtree(d,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',d])
    r=subprocess.run(['git','-C',d,'-c','user.name=x','-c','user.email=x@x','revert','-n',c],capture_output=True,text=True)
    msg=subprocess.run(['git','-C','/repo','log','-1','--format=%s',c],capture_output=True,text=True).stdout.strip()
    if r.returncode: print(c,'REVERT CONFLICT',msg,flush=True); continue
    out=[]
    for k in checks:
        r=subprocess.run(['python3','/verif/run_check.py',k],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=d))
        out.append((k,r.returncode))
        if r.returncode==1: break
        if r.returncode not in (0,1): print(r.stdout[-500:],r.stderr[-500:])
    print(c,out,msg,flush=True)
shutil.rmtree('/tmp/w/fx',ignore_errors=True)
