PROPERTY = 'C05'
NEEDS = "an EHLO argument starting with '[' with upper-case letters"
BREAKS = 'EHLO names starting with a bracket are compared case-sensitively'
EDITS = [
 ('rules.go',
  "\thost = strings.ToLower(host)\n\tif host[len(host)-1] == '.' ",
  "\tif host[0] != '[' {\n\t\thost = strings.ToLower(host)\n\t}\n\tif host[len(host)-1] == '.' "),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules='@helo reject helo "[a.com]"\n', args=["-nostdrules"])
check(s.connect().ehlo("[a.com]") == 550, "lower case")
check(s.connect().ehlo("[A.COM]") == 550, "upper case")
check(s.connect().ehlo("[b.com]") == 250, "another name")
'''
