PROPERTY = 'C25'
NEEDS = 'a certificate file named in -conncfg being replaced while the server runs'
BREAKS = 'the certificate first read from a file is served for ever'
EDITS = [
 ('sinksmtp.go',
  '\tfor i := range clist {\n\t\tcert, err := tls.LoadX509KeyPair(clist[i], klist[i])\n\t\tif err != nil {',
  '\tfor i := range clist {\n\t\tcertLock.Lock()\n\t\tcert, ok := certCache[clist[i]+" "+klist[i]]\n\t\tvar err error\n\t\tif !ok {\n\t\t\tcert, err = tls.LoadX509KeyPair(clist[i], klist[i])\n\t\t\tif err == nil {\n\t\t\t\tcertCache[clist[i]+" "+klist[i]] = cert\n\t\t\t}\n\t\t}\n\t\tcertLock.Unlock()\n\t\tif err != nil {'),
 ('sinksmtp.go',
  'func loadCerts(',
  'var certLock sync.Mutex\nvar certCache = make(map[string]tls.Certificate)\n\nfunc loadCerts('),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
import shutil, ssl, socket
a = cert("one.example.org"); c2 = cert("two.example.org")
s = Server(b, args=["-nostdrules", "-conncfg", "%D/conn.cfg"], start=False)
def use(p):
    shutil.copy(p[0], s.dir + "/x.crt"); shutil.copy(p[1], s.dir + "/x.key")
use(a)
s.file("conn.cfg", "* cert=" + s.dir + "/x.crt key=" + s.dir + "/x.key\n")
s.start()
def served():
    x = s.connect(); x.ehlo(); x.cmd("STARTTLS")
    ctx = ssl.create_default_context(); ctx.check_hostname = False; ctx.verify_mode = ssl.CERT_NONE
    t = ctx.wrap_socket(x.s)
    return t.getpeercert(True)
one = served()
check(served() == one, "the same")
use(c2)
check(served() != one, "another certificate by now")
'''
