From 1136a0d1fa663e2ed77de2b408d052c11f85cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:21 +0000
Subject: [PATCH 01/17] fix: a rule note without an SMTP log must not crash the
 server

---
 sinksmtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index c5a7c29..680a165 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -787,7 +787,7 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
 	if note := c.withprops["note"]; note != "" {
-		c.trans.log.Write([]byte(fmt.Sprintf("! rule note: %s\n", note)))
+		writeLog(c.trans.log, "! rule note: %s\n", note)
 	}
 	// Disable TLS if desired, or just disable asking for client certs.
 	switch c.withprops["tls-opt"] {
-- 
2.43.0


From 3fda37142075c9992206c81ff790ce26f2fc2a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:28 +0000
Subject: [PATCH 02/17] fix: matching an empty EHLO name against a host pattern
 must not panic

---
 rules.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rules.go b/rules.go
index e3f9f72..5a5e812 100644
--- a/rules.go
+++ b/rules.go
@@ -348,6 +348,11 @@ func matchAddress(addr string, pat string) bool {
 // pattern 'a.b', ie we strip off the trailing dot from the hostname.
 // This stripping is suppressed if the pattern ends in a '.' itself.
 func matchHost(host string, pat string) bool {
+	// An empty name (from an EHLO without one) matches nothing, and neither
+	// does an empty pattern.
+	if host == "" || pat == "" {
+		return false
+	}
 	host = strings.ToLower(host)
 	if host[len(host)-1] == '.' && pat[len(pat)-1] != '.' {
 		host = host[:len(host)-1]
-- 
2.43.0


From 5956dc8f1c36784dd1f3e89ebec3919ac1d4160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:28 +0000
Subject: [PATCH 03/17] fix: an empty quoted pattern must not panic when it is
 evaluated

---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index 5a5e812..2c6e6e0 100644
--- a/rules.go
+++ b/rules.go
@@ -132,7 +132,7 @@ func newContext(trans *smtpTransaction, rules []*Rule) *Context {
 func (c *Context) getMatchList(a string) []string {
 	var fname string
 	switch {
-	case a[0] == '/' || strings.HasPrefix(a, "./"):
+	case strings.HasPrefix(a, "/") || strings.HasPrefix(a, "./"):
 		fname = a
 	case strings.HasPrefix(a, "file:"):
 		fname = a[len("file:"):]
-- 
2.43.0


From ac7e1a253953dd253dea4be0544987c10282ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:50 +0000
Subject: [PATCH 04/17] fix: do not ignore the last line of a pattern file
 without a final newline

---
 sinksmtp.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 680a165..f43fedf 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -89,10 +89,12 @@ func readList(rdr *bufio.Reader) ([]string, error) {
 	var a []string
 	for {
 		line, err := rdr.ReadString('\n')
-		if err != nil {
-			if err == io.EOF {
-				return a, nil
-			}
+		// The last line may come without a newline, together with
+		// io.EOF.
+		if err == io.EOF && line == "" {
+			return a, nil
+		}
+		if err != nil && err != io.EOF {
 			return a, err
 		}
 		line = strings.TrimSpace(line)
-- 
2.43.0


From ec5a92d1bfa53e8083dff8f45e70c5e99e3b0acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:50 +0000
Subject: [PATCH 05/17] fix: do not ignore the last line of a -conncfg file
 without a final newline

---
 conncfg.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conncfg.go b/conncfg.go
index 84bbecb..bbd631c 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -60,10 +60,12 @@ func readConnFile(rdr *bufio.Reader) (*destMap, error) {
 		var host, cert, key string
 
 		line, err := rdr.ReadString('\n')
-		if err == io.EOF {
+		// The last line may come without a newline, together with
+		// io.EOF.
+		if err == io.EOF && line == "" {
 			break
 		}
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
 		lnum++
-- 
2.43.0


From 32b74cf8edf3dd5a9a8ff8ae959524cc5ec424f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:51 +0000
Subject: [PATCH 06/17] fix: do not accept a message whose file could not be
 written completely

---
 sinksmtp.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index f43fedf..929e223 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -670,9 +670,17 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 			warnf("error writing message file: %s\n", err)
 		}
 		_ = fp.Sync()
-		err = fp.Close()
+		cerr := fp.Close()
+		if cerr != nil {
+			warnf("error closing message file: %s\n", cerr)
+			if err == nil {
+				err = cerr
+			}
+		}
 		if err != nil {
-			warnf("error closing message file: %s\n", err)
+			// Do not leave an incomplete file behind; when the
+			// client retries it would pass for the message.
+			_ = os.Remove(tgt)
 		}
 	} else if !os.IsExist(err) {
 		warnf("error writing message file: %v\n", err)
-- 
2.43.0


From 8432572a4a87114b4a9e49b0805919a782b99575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:51 +0000
Subject: [PATCH 07/17] fix: a dbl hit on sbl.spamhaus.org for an IPv6 client
 must not panic

---
 sinksmtp.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 929e223..4fc0e26 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -693,8 +693,12 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 // Given a SBL hit on a remote IP, try to give us what SBL records were hit.
 func getSBLHits(t *smtpTransaction) []string {
 	var sbls []string
-	// since we know this hit, we can omit a lot of checks.
+	// The hit may be on a domain instead of the remote IP ('dbl'), and
+	// the remote IP may then be an IPv6 one.
 	s := strings.Split(t.rip, ".")
+	if len(s) != 4 {
+		return sbls
+	}
 	ln := fmt.Sprintf("%s.%s.%s.%s.sbl.spamhaus.org.", s[3], s[2], s[1], s[0])
 	txts, err := net.LookupTXT(ln)
 	if err != nil {
-- 
2.43.0


From efe79763387a2fc8068f5c542ab7b440a34ed34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:51 +0000
Subject: [PATCH 08/17] fix: make the 'bad' address attribute what doc.go says
 it is

---
 rnodes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rnodes.go b/rnodes.go
index bd0c865..3d893f7 100644
--- a/rnodes.go
+++ b/rnodes.go
@@ -97,7 +97,7 @@ const (
 	oFrom
 
 	// merged bitmaps
-	oBad = oUnqualified | oRoute | oNoat | oGarbage
+	oBad = oUnqualified | oQuoted | oNoat | oGarbage
 	oIp  = oBareip | oProperip
 	oAny = oHost | oEhlo | oFrom
 )
-- 
2.43.0


From d2754448ac360ac1654987a132c779b07128c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:51 +0000
Subject: [PATCH 09/17] fix: 'dbl host' must not cut the last character off
 names without a final dot

---
 rnodes.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rnodes.go b/rnodes.go
index 3d893f7..4436428 100644
--- a/rnodes.go
+++ b/rnodes.go
@@ -452,14 +452,15 @@ func (d *DblNode) Eval(c *Context) (r Result) {
 	}
 	if (d.src & oHost) == oHost {
 		// DNS names have a trailing '.', which we must remove.
+		// Names from the hosts file may not have one.
 		for _, s := range c.trans.rdns.verified {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 		for _, s := range c.trans.rdns.nofwd {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 		for _, s := range c.trans.rdns.inconsist {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 	}
 	if (d.src&oFrom) == oFrom && c.from != "" {
-- 
2.43.0


From c0533ee3492f84d72e087f365165f307e1ef0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:07 +0000
Subject: [PATCH 10/17] fix: connections must not share the array they collect
 their rules in

---
 sinksmtp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 4fc0e26..b7bd56e 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -170,7 +170,9 @@ func setupRules(baserules []*Rule) ([]*Rule, bool) {
 	var rfile string
 	var err error
 
-	rules = baserules
+	// Connections load their rules concurrently, so they must not append
+	// to the shared array behind baserules.
+	rules = append(rules, baserules...)
 	for _, rfile = range rulefiles {
 		rules, err = accumRules(rules, rfile)
 		if err != nil {
-- 
2.43.0


From ae8948e54de202275581083759d1ef234dc5c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:07 +0000
Subject: [PATCH 11/17] fix: compare the IP address in an EHLO as an address,
 not as text

---
 rules.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rules.go b/rules.go
index 2c6e6e0..c4ffeaf 100644
--- a/rules.go
+++ b/rules.go
@@ -211,12 +211,18 @@ func heloGetter(c *Context) (o Option) {
 			o |= oProperip
 		}
 	}
+	if hip == "" {
+		return
+	}
+	// The same address can be written in several ways, especially for
+	// IPv6, so we can't compare strings.
+	ip := net.ParseIP(hip)
 	switch {
-	case hip == c.trans.rip:
+	case ip.Equal(net.ParseIP(c.trans.rip)):
 		o |= oRemip
-	case hip == c.trans.lip:
+	case ip.Equal(net.ParseIP(c.trans.lip)):
 		o |= oMyip
-	case hip != "":
+	default:
 		o |= oOtherip
 	}
 	return
-- 
2.43.0


From c62870aea6e547117a21ad8349275feee879ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 12/17] fix: make-yakker must apply whatever else the session
 goes on to do

---
 sinksmtp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index b7bd56e..f55635f 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -434,6 +434,7 @@ type smtpTransaction struct {
 	lastamsg string
 
 	lastresgood bool // last result from decider()
+	forceyakker bool // some rule with make-yakker has matched
 }
 
 // returns overall hash and body-of-message hash. The latter may not
@@ -805,6 +806,11 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	if note := c.withprops["note"]; note != "" {
 		writeLog(c.trans.log, "! rule note: %s\n", note)
 	}
+	// make-yakker is sticky; it applies regardless of what happens in
+	// the rest of the session.
+	if _, ok := c.withprops["make-yakker"]; ok {
+		trans.forceyakker = true
+	}
 	// Disable TLS if desired, or just disable asking for client certs.
 	switch c.withprops["tls-opt"] {
 	case "off":
@@ -1203,9 +1209,8 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 	// Once people are yakkers we don't count their continued failure
 	// to do anything against them.
 	// And we have to have good rules to start with because duh.
-	_, forceyakker := c.withprops["make-yakker"]
 	switch {
-	case forceyakker:
+	case trans.forceyakker:
 		// It's a lot simpler if forced yakking takes priority
 		// over everything else.
 		cnt = yakkers.Set(trans.rip, yakTimeout, yakCount)
-- 
2.43.0


From 46b306c940408791b53ef9b89dc036e0504ee42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 13/17] fix: detect a repeated with-option whose first value is
 empty

---
 rparse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rparse.go b/rparse.go
index 17c626c..0285ace 100644
--- a/rparse.go
+++ b/rparse.go
@@ -486,7 +486,7 @@ func (p *parser) pWClause(rc *RClause) (bool, error) {
 		cv := p.curtok.val
 		switch ct {
 		case itemMessage, itemNote, itemSavedir:
-			if rc.withs[cv] != "" {
+			if _, ok := rc.withs[cv]; ok {
 				return gotone, p.posError(fmt.Sprintf("repeated '%s' option in with clause", cv))
 			}
 			p.consume()
-- 
2.43.0


From 033e6e52778853eab5e1a2cc3d58cc2659c37fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 14/17] fix: the HELO attribute is called remip, not remoteip

---
 doc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc.go b/doc.go
index 5f24606..0ced823 100644
--- a/doc.go
+++ b/doc.go
@@ -646,7 +646,7 @@ HATTRS is one or more of:
 
 	myip		The HELO name is the local IP address of the
 			server, either bare or in proper form.
-	remoteip	The HELO name is the IP address of client,
+	remip		The HELO name is the IP address of client,
 			either bare or in proper form.
 	otherip		The HELO name is in the form of an IP address
 			that is neither the local IP nor the client's
-- 
2.43.0


From a91f95f128d45c955305ccbe72925c2bb308c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:02 +0000
Subject: [PATCH 15/17] fix: a rule file that includes itself is an error, not
 endless recursion

---
 rparse.go   | 16 ++++++++++++++--
 sinksmtp.go |  6 +++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/rparse.go b/rparse.go
index 0285ace..4d8c8e9 100644
--- a/rparse.go
+++ b/rparse.go
@@ -54,8 +54,13 @@ type parser struct {
 	l       *lexer
 	curtok  item
 	currule *Rule
+	depth   int // of nested includes
 }
 
+// Includes can only be nested this deep, mostly so that a file that includes
+// itself is an error.
+const maxIncludeDepth = 32
+
 // consume the current token and advance to the next one
 func (p *parser) consume() {
 	// EOF is sticky because we pretend that it is an end of line
@@ -658,7 +663,10 @@ func (p *parser) pInclude() ([]*Rule, error) {
 	if err != nil {
 		return nil, err
 	}
-	rules, err := loadRules(fname)
+	if p.depth >= maxIncludeDepth {
+		return nil, p.lineError(fmt.Sprintf("includes are nested too deep to include '%s'", fname))
+	}
+	rules, err := loadRulesDepth(fname, p.depth+1)
 	if err != nil {
 		return rules, p.lineError(fmt.Sprintf("while including '%s': %s", fname, err))
 	}
@@ -697,8 +705,12 @@ func (p *parser) pFile() (rules []*Rule, err error) {
 // Parse an input string into a set of rules and a possible error.
 // If there is an error, you must ignore the rules.
 func Parse(input string) (rules []*Rule, err error) {
+	return parseDepth(input, 0)
+}
+
+func parseDepth(input string, depth int) (rules []*Rule, err error) {
 	l := lex(input)
-	p := &parser{l: l}
+	p := &parser{l: l, depth: depth}
 	// we must prime the current token with the first token in the
 	// file.
 	p.curtok = l.nextItem()
diff --git a/sinksmtp.go b/sinksmtp.go
index f55635f..bcf2a53 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -135,6 +135,10 @@ func loadList(fname string) []string {
 // ----
 // Load a|the rule file. We assume filename is non-empty.
 func loadRules(fname string) ([]*Rule, error) {
+	return loadRulesDepth(fname, 0)
+}
+
+func loadRulesDepth(fname string, depth int) ([]*Rule, error) {
 	fp, err := os.Open(fname)
 	if err != nil {
 		return nil, err
@@ -144,7 +148,7 @@ func loadRules(fname string) ([]*Rule, error) {
 	if err != nil {
 		return nil, err
 	}
-	rl, err := Parse(string(b))
+	rl, err := parseDepth(string(b), depth)
 	if err != nil {
 		return nil, fmt.Errorf("rules parsing error %v", err)
 	}
-- 
2.43.0


From df691e62cdc114ae9598dba16db020037f2beab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:07 +0000
Subject: [PATCH 16/17] fix: give a saved message its name only once it is
 complete on disk

A crash while the file was being written, or a second session delivering the
same message at that moment, made an incomplete file pass for the message:
with -save-hash msg or full the retry was then acknowledged without ever
being stored.
---
 sinksmtp.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index bcf2a53..bb5502b 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -668,31 +668,32 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 	}
 
 	tgt := trans.savedir + "/" + hash
-	// O_CREATE|O_EXCL will fail if the file already exists, which
-	// is okay with us.
-	fp, err := os.OpenFile(tgt, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+	// We write to a temporary file and only give it its real name once
+	// it is complete on disk. Otherwise a crash in the middle of the
+	// write, or another session with the same message at the same time,
+	// could mistake an incomplete file for the message.
+	tmp := fmt.Sprintf("%s/.tmp-%s-%d", trans.savedir,
+		strings.Replace(prefix, "/", "-", -1), time.Now().UnixNano())
+	fp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	if err == nil {
 		_, err = fp.Write(m)
-		if err != nil {
-			warnf("error writing message file: %s\n", err)
-		}
 		_ = fp.Sync()
 		cerr := fp.Close()
-		if cerr != nil {
-			warnf("error closing message file: %s\n", cerr)
-			if err == nil {
-				err = cerr
-			}
+		if err == nil {
+			err = cerr
 		}
-		if err != nil {
-			// Do not leave an incomplete file behind; when the
-			// client retries it would pass for the message.
-			_ = os.Remove(tgt)
+		if err == nil {
+			// This will fail if the file already exists, which
+			// is okay with us.
+			err = os.Link(tmp, tgt)
+			if os.IsExist(err) {
+				err = nil
+			}
 		}
-	} else if !os.IsExist(err) {
+		_ = os.Remove(tmp)
+	}
+	if err != nil {
 		warnf("error writing message file: %v\n", err)
-	} else {
-		err = nil
 	}
 	return hash, err
 }
-- 
2.43.0


From 19b954873f064506ce9550adc7412f76ae21f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:43 +0000
Subject: [PATCH 17/17] fix: a message whose file could not be flushed to disk
 must not be accepted

Saving a message ignored the result of fsync, so a message was
acknowledged although the disk had refused to store it.
---
 sinksmtp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index bb5502b..0828f27 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -677,7 +677,9 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 	fp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	if err == nil {
 		_, err = fp.Write(m)
-		_ = fp.Sync()
+		if serr := fp.Sync(); err == nil {
+			err = serr
+		}
 		cerr := fp.Close()
 		if err == nil {
 			err = cerr
-- 
2.43.0

