PROPERTY = 'C29'
NEEDS = 'a client that greets again under TLS'
BREAKS = 'every EHLO under TLS counts as TLS being turned on'
EDITS = [
 ('sinksmtp.go',
  '\t\t\t\tif convo.TLSOn && !trans.tlson {\n\t\t\t\t\tevents.tlson.Add(1)',
  '\t\t\t\tif convo.TLSOn {\n\t\t\t\t\tevents.tlson.Add(1)'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
c, k = cert("server.example.org")
s = Server(b, rules="accept all\n", args=["-nostdrules", "-c", c, "-k", k, "-pprof", "x"], start=False)
s.args[s.args.index("-pprof") + 1] = pp = "127.0.0.1:%d" % s.freeport("127.0.0.1")
s.start()
c = s.connect()
c.ehlo()
c.starttls()
c.ehlo()
c.message("a@b.com", "c@d.com")
c.ehlo()
c.quit()
time.sleep(0.2)
n = s.vars(pp)["smtpcounts"]["ehlo_tlson"]
check(n == 1, "ehlo_tlson is %s" % n)
'''
