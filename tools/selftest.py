# the engine against the native build on the standard-library stress entries: python3 tools/selftest.py h_std:0,2 h_std:1,3 ... (after check.py --build)
import json,subprocess,sys,os,tempfile
bad=0;n=0
os.makedirs('/tmp/selftest.d',exist_ok=True)
LL=subprocess.check_output("find /verif/build/sym -name 'hsym*.ll' -printf '%T@ %p\n'|sort -n|tail -1|cut -d' ' -f2",shell=True,text=True).strip()
for e in sys.argv[1:]:
  subprocess.run(['/verif/engine/target/release/llsym',LL,'--entry',e,'--jobs','8','--limit','100','--out','/tmp/selftest.json'])
  for l in open('/tmp/selftest.json'):
    d=json.loads(l)
    for s in d['samples']:
      open('/tmp/selftest.in','wb').write(bytes.fromhex(s['input']) if isinstance(s['input'],str) else bytes(s['input']))
      r=subprocess.run(['/verif/build/nat/debug/hnat',e,'/tmp/selftest.in','/tmp/selftest.d'],capture_output=True,text=True)
      got=" ".join(x[2:] for x in r.stdout.splitlines() if x.startswith('E '))
      n+=1
      if got.split()!=s['trace'].split() or r.returncode: 
        bad+=1
        if bad<4: print(e,s['input'],'\nS',s['trace'],'\nN',got,r.returncode,r.stderr[-300:])
print(n,'samples',bad,'bad')
