PROPERTY = 'C03'
NEEDS = 'a term whose truth changes within a session (another MAIL FROM, another RCPT TO)'
BREAKS = "the outcome of an 'or' is remembered for the rest of the session, whatever the terms say later"
EDITS = [
 ('rnodes.go',
  'type OrN struct {\n\tleft, right Expr\n}\n',
  'type OrN struct {\n\tleft, right Expr\n\n\t// the context we last matched in\n\thit *Context\n}\n'),
 ('rnodes.go',
  '\tr = o.left.Eval(c)\n\tif r {\n\t\treturn r\n\t}\n\treturn o.right.Eval(c)\n',
  '\tif o.hit == c && c.from != "" {\n\t\treturn true\n\t}\n\tr = o.left.Eval(c)\n\tif !r {\n\t\tr = o.right.Eval(c)\n\t}\n\tif r {\n\t\to.hit = c\n\t}\n\treturn r\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from reject from a@b.com or from c@d.com\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.mail("a@b.com") >= 500, "first")
check(c.mail("x@y.com") == 250, "another sender")
'''
