PROPERTY = 'C17'
NEEDS = 'a pattern file with a very long line'
BREAKS = "pattern lines longer than the reader's buffer are cut and the rest taken as another pattern"
EDITS = [
 ('sinksmtp.go',
  '\t\tline, err := rdr.ReadString(\'\\n\')\n\t\t// The last line may come without a newline, together with\n\t\t// io.EOF.\n\t\tif err == io.EOF && line == "" {\n\t\t\treturn a, nil\n\t\t}\n\t\tif err != nil && err != io.EOF {\n\t\t\treturn a, err\n\t\t}\n\t\tline = strings.TrimSpace(line)\n\t\tif line == "" || line[0] == \'#\' {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower(line)\n',
  '\t\tbl, _, err := rdr.ReadLine()\n\t\tline := string(bl)\n\t\tif err == io.EOF {\n\t\t\treturn a, nil\n\t\t}\n\t\tif err != nil {\n\t\t\treturn a, err\n\t\t}\n\t\tline = strings.TrimSpace(line)\n\t\tif line == "" || line[0] == \'#\' {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower(line)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False)
p = s.file("pats", "# " + "x" * (4096 - 2) + "evil@b.com\nc@d.com\n")
s.args += ["-r", s.file("rules", "reject from %s\n" % p), "-nostdrules"]
s.start()
c = s.connect()
c.ehlo()
check(c.mail("c@d.com") >= 500, "c@d.com is in the file")
check(c.mail("evil@b.com") == 250, "evil@b.com is in a comment only")
'''
