import os,subprocess,json,shutil,sys
W='/tmp/seedwt'
HEAD='''package main

import (
	"fmt"
	"os"

	pb "demo.test/demo"
%(imports)s)

type validator interface {
	Validate() error
	ValidateAll() error
}

var bad bool

func want(name string, m validator, ok bool) {
	if got := m.Validate() == nil; got != ok {
		fmt.Printf("%%s: valid=%%v, want %%v\\n", name, got, ok)
		bad = true
	}
	if got := m.ValidateAll() == nil; got != ok {
		fmt.Printf("%%s: ValidateAll valid=%%v, want %%v\\n", name, got, ok)
		bad = true
	}
}

func fail(args ...interface{}) {
	fmt.Println(args...)
	bad = true
}

func main() {
%(body)s
	if bad {
		os.Exit(1)
	}
}
'''
PROTO='''syntax = "proto3";
package demo;
option go_package = "demo.test/demo";
import "validate/validate.proto";
%s
'''
def seed(id, prop, edits, needs, breaks, proto=None, body=None, imports='', demo=None, files={}):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    d='/verif/seeded/'+id
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.check_call(['git','-C',W,'checkout','-q','--','.'])
    for f,a,b,*n in edits:
        p=W+'/'+f; s=open(p).read()
        c=s.count(a)
        k=n[0] if n else 1
        assert c==k,(id,f,a,c)
        open(p,'w').write(s.replace(a,b))
    if f.endswith('.go') and not f.startswith('templates/goshared/reg'): subprocess.call(['gofmt','-l',W+'/'+f])
    subprocess.check_call(['bash','/verif/tools/mkseed.sh',id])
    if demo is None:
        shutil.copy('/verif/tools/godemo.sh',d+'/demo.sh')
        open(d+'/demo.proto','w').write(PROTO%proto)
        open(d+'/main.go.txt','w').write(HEAD%dict(imports=''.join('\t%s\n'%i for i in imports.split('|') if i),body=body))
    else:
        open(d+'/demo.sh','w').write(demo)
    for n,c in files.items(): open(d+'/'+n,'w').write(c)
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    # verify
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    subprocess.check_call(['git','-C',W,'apply',d+'/patch.diff'])
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=W,capture_output=True,text=True)
    subprocess.check_call(['git','-C',W,'checkout','-q','--','.'])
    print(id,'clean',r0.returncode,'bug',r1.returncode, 'OK' if r0.returncode==0 and r1.returncode!=0 else 'PROBLEM')
    if r0.returncode: print(r0.stdout[-1500:],r0.stderr[-1500:])
    else: print('   ',(r1.stdout+r1.stderr)[-300:])
