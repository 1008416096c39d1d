PROPERTY = 'C28'
NEEDS = 'an address that cannot be listened on'
BREAKS = 'an address that cannot be listened on is skipped with a warning'
EDITS = [
 ('sinksmtp.go',
  '\t\t\tdie("error listening to tcp!%s: %s\\n", flag.Arg(i), err)\n',
  '\t\t\tif i == flag.NArg()-1 && i == 0 {\n\t\t\t\tdie("error listening to tcp!%s: %s\\n", flag.Arg(i), err)\n\t\t\t}\n\t\t\twarnf("error listening to tcp!%s: %s\\n", flag.Arg(i), err)\n\t\t\tcontinue\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
q = socket.socket()
q.bind(("127.0.0.1", 0))
q.listen(1)
s = Server(b, args=["-nostdrules", "127.0.0.1:%d" % q.getsockname()[1]], start=False)
s.start(wait=False)
for i in range(60):
    if not s.alive():
        break
    time.sleep(0.05)
check(not s.alive() and s.p.returncode != 0, "the server must refuse to start")
'''
