PROPERTY = 'C16'
NEEDS = 'a tls-opt repeated in one with clause'
BREAKS = 'a repeated tls-opt loads'
EDITS = [
 ('rparse.go',
  '\t\t\tif arg != "off" && arg != "no-client" {\n',
  '\t\t\tif arg == "no-client" && err == nil {\n\t\t\t\tcv = "tls-opt"\n\t\t\t\tdelete(rc.withs, cv)\n\t\t\t}\n\t\t\tif arg != "off" && arg != "no-client" {\n'),
 ('rparse.go',
  '\t\trc.withs[cv] = arg\n\t\tgotone = true\n',
  '\t\tif ct == itemTlsOpt && arg == "no-client" && p.curtok.typ == itemTlsOpt {\n\t\t\tcontinue\n\t\t}\n\t\trc.withs[cv] = arg\n\t\tgotone = true\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules"])
check(s.connect().ehlo() == 250, "good rules")
s.file("rules0", "accept all with tls-opt off tls-opt off\n")
check(s.connect().ehlo() // 100 == 4, "a repeated option must not load")
s.file("rules0", "accept all with tls-opt no-client tls-opt off\n")
check(s.connect().ehlo() // 100 == 4, "a repeated option must not load")
'''
