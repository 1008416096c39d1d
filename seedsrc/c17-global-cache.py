PROPERTY = 'C17'
NEEDS = 'a pattern file that changes between connections'
BREAKS = 'pattern files are read once and kept for later connections'
EDITS = [
 ('rules.go',
  '\tl := loadList(fname)\n\tif len(l) == 0 {',
  '\tl := sharedList(fname)\n\tif len(l) == 0 {'),
 ('rules.go',
  "// We pull the list out of c.files if it's already loaded.\n",
  "var listCache = struct {\n\tsync.Mutex\n\tm map[string][]string\n}{m: make(map[string][]string)}\n\n// sharedList avoids loading the same list again for every connection.\nfunc sharedList(fname string) []string {\n\tlistCache.Lock()\n\tdefer listCache.Unlock()\n\tl := listCache.m[fname]\n\tif len(l) == 0 {\n\t\tl = loadList(fname)\n\t\tif len(l) > 0 {\n\t\t\tlistCache.m[fname] = l\n\t\t}\n\t}\n\treturn l\n}\n\n// We pull the list out of c.files if it's already loaded.\n"),
 ('rules.go',
  '\t"strings"\n',
  '\t"strings"\n\t"sync"\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False)
p = s.file("pats", "a@b.com\n")
s.args += ["-r", s.file("rules", "reject from %s\n" % p), "-nostdrules"]
s.start()
c = s.connect()
c.ehlo()
check(c.mail("a@b.com") >= 500, "a@b.com is in the file")
s.file("pats", "c@d.com\n")
c = s.connect()
c.ehlo()
check(c.mail("a@b.com") == 250, "a@b.com is in the file no more")
'''
