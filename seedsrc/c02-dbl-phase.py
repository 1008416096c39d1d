PROPERTY = 'C02'
NEEDS = 'a negated dbl rule that uses both the EHLO name and the sender, with only the sender listed'
BREAKS = 'a dbl rule with several sources is checked at HELO although it needs the sender'
EDITS = [
 ('rparse.go',
  '\t\tcase (opts & oFrom) == oFrom:\n\t\t\tph = pMfrom\n\t\tcase (opts & oEhlo) == oEhlo:\n\t\t\tph = pHelo\n',
  '\t\tcase (opts & oEhlo) == oEhlo:\n\t\t\tph = pHelo\n\t\tcase (opts & oFrom) == oFrom:\n\t\t\tph = pMfrom\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject not dbl helo,from dbl.example.net\n", args=["-nostdrules"],
           dns={"b.com.dbl.example.net": {"A": ["127.0.0.2"]}, "b.com": {"A": ["8.8.8.8"]}})
c = s.connect()
check(c.ehlo() == 250, "the rule needs the sender and must not act at EHLO")
check(c.mail("a@b.com") == 250, "MAIL FROM of a listed domain")
'''
