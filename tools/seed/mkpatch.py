import sys,subprocess
# mkpatch.py id file <<< "OLD\n=====\nNEW"  (several blocks separated by a line %%%%%)
pid=sys.argv[1]; W='/tmp/seedtree'
subprocess.run(['git','-C',W,'fetch','-q','/repo','HEAD']);subprocess.run(['git','-C',W,'checkout','-q','-f','FETCH_HEAD'])
for blk in sys.stdin.read().split('%%%%%\n'):
    head,_,rest=blk.partition('\n')
    f=head.strip(); a,b=rest.split('=====\n')
    p=W+'/'+f; s=open(p).read()
    assert s.count(a)==1,(f,s.count(a),a)
    open(p,'w').write(s.replace(a,b))
d=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
import os; os.makedirs('/verif/seeded/'+pid,exist_ok=True)
open('/verif/seeded/%s/patch.diff'%pid,'w').write(d)
subprocess.run(['git','-C',W,'checkout','-q','-f'])
