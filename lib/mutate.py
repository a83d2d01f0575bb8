"""usage: mut.py CHECK FILE <<< 'old\n====\nnew' ; runs the check on a mutated copy."""
import subprocess,sys,os,shutil
check,file=sys.argv[1:3]
extra=sys.argv[3:]
old,new=sys.stdin.read().split('\n====\n')
new=new.rstrip('\n'); old=old.rstrip('\n')
R='/tmp/mrepo'+os.environ.get('MUT','')
if not os.path.exists(R):
  subprocess.run(['git','clone','-q',os.environ.get('MUTSRC','/repo'),R],check=True)
subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
subprocess.run(['git','-C',R,'pull','-q'],check=True)
p=os.path.join(R,file); s=open(p,encoding='utf-8').read()
n=s.count(old)
if n<1: print('NOT FOUND'); sys.exit(2)
open(p,'w',encoding='utf-8').write(s.replace(old,new,1))
env=dict(os.environ,VERIF_REPO=R,VERIF_BUILD='/tmp/mbuild'+os.environ.get('MUT',''))
out=subprocess.run(['python3','/verif/check.py',check]+extra,env=env,capture_output=True,text=True)
lines=(out.stdout+out.stderr).splitlines()
print(f'[{n} occurrences] exit',out.returncode)
print('\n'.join(l[:300] for l in lines[-6:]))
subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
