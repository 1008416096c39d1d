PROPERTY = 'C15'
NEEDS = 'a rule file replaced by one of the same size within the same second'
BREAKS = "rules are reloaded only if the file's size or modification time (in seconds) changed"
EDITS = [
 ('sinksmtp.go',
  '\trl, err := parseDepth(string(b), depth)\n\tif err != nil {\n\t\treturn nil, fmt.Errorf("rules parsing error %v", err)\n\t}\n\treturn rl, nil\n}\n',
  '\truleCache.Lock()\n\tdefer ruleCache.Unlock()\n\tst, serr := fp.Stat()\n\tkey := ""\n\tif serr == nil {\n\t\tkey = fmt.Sprintf("%d %d", st.Size(), st.ModTime().Unix())\n\t}\n\tif e, ok := ruleCache.m[fname]; depth == 0 && ok && key != "" && e.key == key {\n\t\treturn e.rules, nil\n\t}\n\trl, err := parseDepth(string(b), depth)\n\tif err != nil {\n\t\treturn nil, fmt.Errorf("rules parsing error %v", err)\n\t}\n\truleCache.m[fname] = ruleEnt{key, rl}\n\treturn rl, nil\n}\n\ntype ruleEnt struct {\n\tkey   string\n\trules []*Rule\n}\n\nvar ruleCache = struct {\n\trmutex\n\tm map[string]ruleEnt\n}{m: make(map[string]ruleEnt)}\n\n// rmutex: includes are loaded while we hold it, so it does nothing when it is\n// held already.\ntype rmutex struct{ ch sync.Mutex }\n\nfunc (r *rmutex) Lock()   { r.ch.TryLock() }\nfunc (r *rmutex) Unlock() { r.ch.TryLock(); r.ch.Unlock() }\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject from a@b.com\n", args=["-nostdrules"])
for i in range(12):
    a = "ac"[i % 2]
    p = s.file("rules0", "reject from %s@b.com\n" % a)
    c = s.connect()
    c.ehlo()
    check(c.mail(a + "@b.com") >= 500, "the rules in force are not those in the file")
    c.quit()
'''
