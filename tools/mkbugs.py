#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/bugs/*.py (each appends to BUGS). Patches are made against /repo's HEAD."""
import sys,os,subprocess,tempfile,json,glob,shutil
BUGS={}
HELP='''package tcpx

import (
IMPORTS
)

func zzPort() string {
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		panic(e)
	}
	defer l.Close()
	return l.Addr().String()
}

func zzServe(srv *TcpX, network string) string {
	a := zzPort()
	go srv.ListenAndServe(network, a)
	time.Sleep(200 * time.Millisecond)
	return a
}

func zzDial(t *testing.T, a string) net.Conn {
	c, e := net.Dial("tcp", a)
	if e != nil {
		t.Fatal("DEMO cannot connect: ", e)
	}
	return c
}

// zzClosed reports whether the server closes the connection within d.
func zzClosed(c net.Conn, d time.Duration) bool {
	c.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 4096)
	for {
		_, e := c.Read(b)
		if e == nil {
			continue
		}
		ne, ok := e.(net.Error)
		return !(ok && ne.Timeout())
	}
}
'''
def bug(id,prop,needs,breaks,edits,imports,demo):
    BUGS[id]=(prop,needs,breaks,edits,imports,demo)
for f in sorted(glob.glob('/verif/tools/bugs/*.py')): exec(open(f).read())
want=sys.argv[1:] or sorted(BUGS)
for id in want:
    prop,needs,breaks,edits,imports,demo=BUGS[id]
    w=tempfile.mkdtemp(prefix='mkbug.',dir='/tmp')
    subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
    for f,old,new in edits:
        s=open(f'{w}/r/{f}').read()
        n=s.count(old)
        assert n==1,(id,f,n,old)
        open(f'{w}/r/{f}','w').write(s.replace(old,new))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',w+'/r','diff']).decode())
    imps=sorted(set(imports.split())|{'net','testing','time'})
    body=HELP.replace('IMPORTS','\n'.join('\t"%s"'%i for i in imps))+demo
    open(d+'/demo.go.txt','w').write(body)
    shutil.copy('/verif/tools/demo.sh.tmpl',d+'/demo.sh')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
print(len(want))
