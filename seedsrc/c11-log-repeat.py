PROPERTY = 'C11'
NEEDS = 'a session in which the set of lists that hit changes and changes back'
BREAKS = 'a list that hit before is not reported again after other hits in between'
EDITS = [
 ('sinksmtp.go',
  '\tif lmsg == c.trans.lastmsg {\n\t\treturn\n\t}\n\tc.trans.log.Write([]byte(lmsg))\n\tc.trans.lastmsg = lmsg\n',
  '\tif strings.Contains(c.trans.lastmsg, lmsg) {\n\t\treturn\n\t}\n\tc.trans.log.Write([]byte(lmsg))\n\tc.trans.lastmsg += lmsg\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {"x.com.bl.example.net": {"A": ["127.0.0.2"]}, "y.com.b2.example.net": {"A": ["127.0.0.2"]}, "x.com": {"A": ["8.8.8.8"]}, "y.com": {"A": ["8.8.8.8"]}}
s = Server(b, rules="@from set-with dbl from bl.example.net with note x\n@from set-with dbl from b2.example.net with note y\n", args=["-nostdrules"], dns=dns)
c = s.connect()
c.ehlo()
for d in ("x", "y", "x"):
    check(c.mail("a@%s.com" % d) == 250, "MAIL FROM")
    c.code("RSET")
c.quit()
n = sum("! dnsbl hit: bl.example.net." in l for l in s.smtplines())
check(n == 2, "%d reports of the first list" % n)
'''
