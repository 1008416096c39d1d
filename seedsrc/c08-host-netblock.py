PROPERTY = 'C08'
NEEDS = 'a netblock that holds a single address (/32 or /128)'
BREAKS = 'ip A/32 never matches'
EDITS = [
 ('rules.go',
  '\treturn ipn.Contains(ip)\n',
  '\tones, bits := ipn.Mask.Size()\n\treturn ones < bits && ipn.Contains(ip)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@helo reject ip 127.0.0.9/32\n@helo stall ip 127.0.0.8/31\n", args=["-nostdrules"])
check(s.connect("127.0.0.9").ehlo() >= 500, "127.0.0.9/32")
check(400 <= s.connect("127.0.0.8").ehlo() < 500, "127.0.0.8/31")
check(s.connect("127.0.0.7").ehlo() == 250, "another address")
'''
