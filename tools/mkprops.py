#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=None)))

NOE = "Only the lexer's tests run reliably; no test drives a connection or evaluates a rule set, let alone all of them."

p("C01", "The first matching rule, in rule order, decides every SMTP command",
  "For every command of every session (EHLO/HELO, MAIL FROM, RCPT TO, DATA, and the finished message) the reply class is that of the first eligible accept/reject/stall rule that matches: accept gives 2xx/3xx, stall 4xx, reject 5xx, and no matching rule means acceptance. Rule order is the rules implied by command-line options first, then the -r files in the order given, with an include standing for the included file's rules at that place; set-with rules never stop the search. A refused command leaves the session where it was and does not become part of the envelope.",
  ["inputs", "configurations", "histories"], "all rule sets, option sets and client command sequences",
  NOE, ["rules.go", "sinksmtp.go", "rnodes.go"],
  [("Decide rule loop", "rules.go:Decide"), ("decider reply dispatch", "sinksmtp.go:decider"), ("base rules before files", "sinksmtp.go:buildRules, setupRules"), ("include in place", "rparse.go:pInclude/pFile")],
  [("Context.ruleset", "the ordered rules of the connection", "rules.go")],
  ["SMTP replies seen by the client", "saved envelope"])
p("C02", "A rule acts only in the SMTP phases it is entitled to",
  "A rule without an explicit phase is checked in every phase from the earliest one where all the information it uses exists (helo data at HELO, sender data and TLS state at MAIL FROM, recipient data at RCPT TO, a dbl rule by its latest source, everything else at connect) through the finished message, and keeps acting again in each later phase. A rule with an explicit phase is checked in exactly that phase and no other. At connect a matching reject drops the connection without a banner and a matching stall does nothing.",
  ["inputs", "configurations", "histories"], "all rules, with and without phases, over whole sessions with repeated EHLO, RSET and several messages",
  NOE, ["rules.go", "rparse.go", "sinksmtp.go"],
  [("phase skip tests", "rules.go:Decide"), ("minimum phase per operator", "rparse.go:minReq, pTerm"), ("connect-time drop", "sinksmtp.go:process, decider")],
  [("Rule.requires, Rule.deferto", "needed and explicit phase", "rnodes.go")], ["SMTP replies", "connection drop before banner"])
p("C03", "Match expressions combine exactly as documented",
  "A clause matches when all its terms match, where 'or' binds tighter than juxtaposition, 'not' negates the single following term or parenthesised group, and parentheses group. In the compact ';' form the clauses of a rule are tried in order, the first one that matches makes the rule match, and only that clause's with-options apply.",
  ["inputs", "programs"], "all expressions built from the operators, nested arbitrarily, over all truth assignments of their terms",
  "The parser tests use a few dozen fixed expressions in one fixed context (and are not run here).", ["rparse.go", "rnodes.go"],
  [("pAndl/pOrl/pTerm/pNot/pParen", "rparse.go"), ("AndL/OrN/NotN Eval, Rule.check", "rnodes.go")], (), ["SMTP replies"])
p("C04", "Address patterns match the documented set of addresses",
  "Ignoring case, a 'from' or 'to' pattern a@b matches exactly that address; a@ matches local part a at any domain or with none; @b matches exactly domain b; @.b matches domain b and every subdomain of it and nothing else; @ matches every address having both a local part and a domain; <> matches the null sender and no well-formed address. An address whose first '@' is its first or last character is matched by no pattern other than one identical to it. A file of patterns matches when at least one of its patterns does.",
  ["inputs"], "all address/pattern pairs",
  "rules_test.go samples about twenty pairs and is not run here.", ["rules.go", "rnodes.go"],
  [("matchAddress, sDotIter", "rules.go"), ("MatchN.Eval", "rnodes.go")], (), ["SMTP replies to MAIL FROM/RCPT TO"])
p("C05", "Hostname patterns match the documented names for helo, host and source",
  "Ignoring case, pattern b.com matches exactly b.com and .b.com matches b.com and every subdomain of it and nothing else; helo/ehlo test the name the client gave, host tests every verified name of the client (a trailing dot on a name is ignored) and matches if any of them does, and 'source H' matches exactly when 'host H or helo H or from @H' does. An empty or dot-only EHLO name simply does not match ordinary patterns.",
  ["inputs", "configurations"], "all names, patterns and verified-name sets",
  "A handful of fixed host/pattern pairs in rules_test.go, not run here.", ["rules.go", "rnodes.go"],
  [("matchHost", "rules.go"), ("newHeloNode/newHostNode/newSourceNode", "rnodes.go")], (), ["SMTP replies"])
p("C06", "Address attributes and the standard rules classify addresses as documented",
  "from-has and to-has are true when the address has at least one listed attribute: noat (no '@'), unqualified (no '.' after the first '@'), route ('@' first and another '@' later), quoted (a '\"' other than as last character), garbage ('@' first with no other '@', '@' last, leading '<', trailing '>', '\"', ']' or '.', or '..' or '@@' anywhere), bad = noat, quoted, unqualified or garbage; the null sender has none. Unless -nostdrules is given, a MAIL FROM or RCPT TO address that is bad or route and an EHLO/HELO without a name are refused with 5xx before any rule file is consulted.",
  ["inputs", "configurations"], "all address strings a client can send",
  "rules_test.go has fourteen sample addresses and is not run here.", ["rules.go", "rnodes.go", "rparse.go", "sinksmtp.go"],
  [("getAddrOpts", "rules.go"), ("oBad and option maps", "rnodes.go, rparse.go:addrMap"), ("standard rules", "sinksmtp.go:buildRules")], (), ["SMTP replies"])
p("C07", "HELO attributes describe the greeting the client really gave",
  "helo-has is true when the EHLO/HELO has at least one listed attribute: helo or ehlo (the command used), none (no name), bogus (name '.'), nodots (no '.' and no ':', or '.', or no name), bareip (the name is an IP address), properip (an IP address in square brackets), ip (either), and for an IP name exactly one of remip (it is the client's address), myip (it is the server's local address) or otherip. Only the most recent EHLO/HELO counts.",
  ["inputs", "configurations"], "all greeting names, client addresses and local addresses",
  "rparse_test.go has seventeen fixed names in one context and is not run here.", ["rules.go", "rparse.go", "rnodes.go"],
  [("heloGetter", "rules.go"), ("heloMap", "rparse.go")], (), ["SMTP replies"])
p("C08", "ip rules match exactly the addresses and netblocks they name",
  "'ip X' matches when the client's address equals X or lies inside the CIDR block X, and 'ip FILE' when that holds for at least one line of the file; lines that are neither address nor CIDR match nothing and do not stop the others from matching.",
  ["inputs", "configurations"], "all client addresses (IPv4 and IPv6), addresses and prefix lengths",
  NOE, ["rules.go", "rnodes.go", "rparse.go"], [("matchIp", "rules.go"), ("newIPNode", "rnodes.go"), ("pIPArg", "rparse.go")], (), ["SMTP replies"])
p("C09", "Reverse DNS names count as verified only when they resolve back",
  "For every client, a PTR name is verified exactly when its forward addresses include the client's address, inconsistent when it resolves but to other addresses only, and no-forward when it does not resolve; 'host' sees only verified names. 'dns' is true when at least one listed attribute holds: nodns (no verified name), exists (some verified name), noforward, inconsistent, good (verified names only, at least one), and saved messages list the three groups under remote-dns, remote-dns-inconsist and remote-dns-nofwd.",
  ["inputs", "configurations", "fault_sequences"], "all DNS contents and lookup failures for the client's address",
  "The tests fake the three lists; no test performs a lookup.", ["rdns.go", "rules.go", "sinksmtp.go"],
  [("LookupAddrVerified", "rdns.go"), ("dnsGetter", "rules.go"), ("writeDNSList", "sinksmtp.go")], (), ["SMTP replies", "saved metadata"])
p("C10", "Sender and recipient domains are classified by deliverability as documented",
  "For an address that is not noat, unqualified, garbage or route, exactly one of resolves, unknown and baddom holds. A domain with MX records is baddom if any MX is '.' or 'localhost.', otherwise as good as its best MX target; a domain without MX is judged as its own target; a target resolves only if it has addresses and all of them are global unicast outside 10/8, 172.16/12, 192.168/16, fc00::/7 and fec0::/10, is unknown on a temporary DNS failure, and is bad otherwise; a temporary failure of the MX lookup makes the domain unknown. For other addresses none of the three holds.",
  ["inputs", "configurations", "fault_sequences"], "all MX/A/AAAA contents and DNS failures",
  "mxresolve_test.go queries real domains over the network and cannot run.", ["mxresolve.go", "rules.go"],
  [("ValidDomain, checkIP, isTemporary", "mxresolve.go"), ("getAddrOpts, validDomain cache", "rules.go")], (), ["SMTP replies"])
p("C11", "DNS blocklist rules match exactly the listed clients and domains",
  "'dnsbl D' matches an IPv4 client exactly when its reversed address under D has an address record, and never an IPv6 client; 'dbl SRCS D' matches exactly when at least one domain from the chosen sources (the EHLO/HELO name, the domain of a well-formed MAIL FROM, all reverse-DNS names verified or not) has an address record under D. A failed lookup is not a hit, and the lists that hit are reported in the SMTP log, once while the same set keeps hitting; with sbl.spamhaus.org among them, so are the SBL records that the client's TXT entries there name.",
  ["inputs", "configurations", "fault_sequences"], "all blocklist contents, sources, clients and lookup failures",
  "The tests pre-load the lookup cache with six names; nothing is looked up.", ["rnodes.go", "rules.go", "sinksmtp.go"],
  [("DNSblN.Eval, DblNode.Eval", "rnodes.go"), ("getDnsblRes, addDnsblHit", "rules.go"), ("logDnsbls", "sinksmtp.go")], (), ["SMTP replies", "SMTP log"])
p("C12", "With-options come from the rules that matched, last one winning",
  "The options in force for a command are those of the matching set-with clauses evaluated for it, later ones overriding earlier ones, overridden by those of the rule that decided it, and by nothing from rules that did not match or were not reached. 'message' text becomes the reply text (every line of it, verbatim) for MAIL FROM, RCPT TO, DATA and the message; 'note' puts exactly one note line in the SMTP log each time; 'savedir' redirects the saving of messages from then on in the connection; a note in a rule has no other effect when there is no SMTP log.",
  ["inputs", "configurations", "histories"], "all rule sets with options, over whole sessions",
  "TestWithSetting checks one rule pair and is not run here.", ["rnodes.go", "rules.go", "sinksmtp.go", "rparse.go"],
  [("Rule.check withprops", "rnodes.go"), ("withprops reset per Decide", "rules.go"), ("decider, doAccept", "sinksmtp.go")],
  [("Context.withprops", "options accumulated for the current command", "rules.go")], ["SMTP reply text", "SMTP log", "location of saved files"])
p("C13", "No rule ever refuses MAIL FROM:<>; its verdict falls on the RCPT TOs",
  "Whatever the rules, a MAIL FROM:<> in sequence gets a 2xx reply. If the rules would have rejected or stalled it, every following RCPT TO of that transaction gets that verdict with the options (message, note) that were in force for it, regardless of what the rules say about the RCPT TO; a new MAIL FROM or EHLO/HELO clears it, so it never affects a later transaction, and an accepting verdict is never carried over.",
  ["inputs", "configurations", "histories"], "all rule sets and command sequences with null and non-null senders, RSETs and repeated greetings",
  NOE, ["rules.go"], [("defresult/defprops deferral", "rules.go:Decide")],
  [("Context.defresult", "verdict deferred from MAIL FROM:<>", "rules.go")], ["SMTP replies"])
p("C14", "Rules about recipients at DATA and message time see every accepted recipient",
  "At DATA and after the message, a rule that uses recipient information matches exactly when it matches for at least one recipient accepted in the current transaction, each recipient being tried separately and in order, and the options applied are those for the first recipient that matches. Refused recipients and recipients of earlier transactions are never considered; at RCPT TO only the address of that command is.",
  ["inputs", "configurations", "histories"], "all recipient lists, accepted and refused, over several transactions",
  NOE, ["rules.go", "sinksmtp.go"], [("ruleForEachRcpt", "rules.go"), ("trans.rcptto reset and append", "sinksmtp.go:process")],
  [("smtpTransaction.rcptto", "accepted recipients", "sinksmtp.go")], ["SMTP replies", "saved envelope"])
p("C15", "Unloadable rules defer everything for that connection, and only for it",
  "If any rule file, or any file it includes, is missing, unreadable or does not parse when a connection starts, every EHLO/HELO of that connection gets a 4xx and nothing is accepted, saved or logged as a message; the failure is reported on standard error naming the file, once while the same failure repeats. Rules are read afresh for each connection, so the next connection after a repair is served by the repaired rules and such sessions do not count against a client as do-nothing sessions.",
  ["inputs", "configurations", "fault_sequences", "histories"], "all sequences of rule-file breakages, repairs and connections",
  NOE, ["sinksmtp.go", "rparse.go"], [("setupRules, loadRules, accumRules", "sinksmtp.go"), ("stallall", "sinksmtp.go:genStallRules"), ("warnonce/warnbackend", "sinksmtp.go"), ("rulesgood gate on yakker counting", "sinksmtp.go:process")], (), ["SMTP replies", "standard error"])
p("C16", "Exactly the documented rule language loads, and layout never changes meaning",
  "A rule file loads if and only if every rule in it follows the documented grammar (including: set-with needs with-options, no repeated with-option, no newline in a note, no explicit phase earlier than the rule needs, no whitespace after a comma, quotes terminated, quoted words are never keywords). Spacing, blank and comment lines, line continuations, optional final newline, quoting of argument words, redundant parentheses and splitting rules over included files never change what a rule set does, and quoted text is taken literally except that \\\" and \\\\ stand for \" and \\.",
  ["inputs", "programs"], "all token sequences and layouts",
  "The lexer tests use thirty fixed inputs; the parser tests are not run here.", ["rlex.go", "rparse.go"],
  [("lexer state functions", "rlex.go"), ("recursive-descent parser", "rparse.go")], (), ["whether a connection is served or deferred", "SMTP replies and reply text"])
p("C17", "Pattern files are honoured line by line, and an empty one disables its rule",
  "A pattern file contributes every non-blank, non-comment line, trimmed and lower-cased, including the last line with or without a final newline, and is read anew for each connection. If a file that is consulted is missing, unreadable or has no entries, the rule consulting it does not match at all, even through 'not' or a later clause; a file that short-circuiting leaves unconsulted has no effect.",
  ["inputs", "configurations", "histories"], "all file contents, absences and changes between connections",
  "TestLoader loads one fixed list with a final newline and is not run here.", ["sinksmtp.go", "rnodes.go", "rules.go"],
  [("readList/loadList", "sinksmtp.go"), ("getMatchList", "rules.go"), ("rulemiss", "rnodes.go:MatchN.Eval, Rule.check; rules.go:Decide")], (), ["SMTP replies"])
p("C18", "Concurrent sessions never influence one another",
  "Under every interleaving of sessions, and with rule files changing at any moment, each session's replies, saved messages and log lines are those it would have had alone under the rules as they were when it connected. There are no data races.",
  ["schedules", "histories", "configurations"], "all interleavings of concurrent sessions and rule-file changes",
  "No test runs two sessions.", ["sinksmtp.go", "rules.go"],
  [("per-connection context, transaction and rule list", "sinksmtp.go:process, setupRules"), ("locked shared maps", "sinksmtp.go:ipMap, dnsblCounts")], (), ["SMTP replies", "saved files", "logs", "race detector"])
p("C19", "A saved message holds exactly what was received, with its true envelope",
  "With a save directory, each fully received message, even one that is then refused, is stored in a file whose part after the 'body' line is byte for byte the message data and whose metadata lines state the connection id, time of receipt, addresses, EHLO name, reverse DNS, TLS parameters exactly when TLS was on, sender, accepted recipients in order, and the true size and SHA1 hashes of message and body. A message that was not fully received leaves no file, and the id given in the reply is the file's name.",
  ["inputs", "histories", "configurations"], "all message contents, envelopes and session histories, several messages per session",
  NOE, ["sinksmtp.go", "tlsnames.go"], [("msgDetails, getHashes, handleMessage", "sinksmtp.go"), ("transaction reset on EHLO/MAIL FROM", "sinksmtp.go:process")], (), ["files in the save directory", "SMTP reply"])
p("C20", "Save-file names follow the chosen hash and never overwrite anything",
  "The file name is the SHA1 of the message data (-save-hash msg), of everything saved except the id line (full), or of everything saved (all). Hence under msg equal data, and under full equal data and envelope from the same client address, share one file, while any difference in what is hashed gives a different file; a file that already exists is left untouched and the message is still handled normally.",
  ["inputs", "histories", "configurations"], "all sequences of equal and differing messages under each naming",
  NOE, ["sinksmtp.go"], [("hashtype switch, O_EXCL create", "sinksmtp.go:handleMessage"), ("metahash", "sinksmtp.go:msgDetails")], (), ["names and contents in the save directory"])
p("C21", "A message is never acknowledged unless its copy is complete on disk",
  "When a message is to be saved, a 2xx reply to it implies that its file exists with the complete contents, flushed to disk before the reply, surviving a kill of the server at any later moment. If creating, writing, flushing, closing or naming the file fails, the reply is 4xx whatever the rules say; and neither after such a failure nor after the server died at any point of it is a later retry of the same message acknowledged on the strength of an incomplete file.",
  ["fault_sequences", "crash_points", "inputs"], "all file-system faults at open, write (any number of bytes) and close, and server kills at any point",
  "No test saves a message, let alone with a failing disk.", ["sinksmtp.go"], [("handleMessage error handling and Sync", "sinksmtp.go"), ("tempfail on handling error", "sinksmtp.go:process")], (), ["SMTP replies", "files after the fault or kill"])
p("C22", "The message and SMTP logs tell the whole truth, one whole line at a time",
  "The message log gains exactly one line per fully received message, accepted or not, giving its time of receipt, connection id, client, sender, accepted recipients, size, hashes, local address and EHLO name, and none for anything else. Every line of the SMTP log belongs to exactly one session, starts with its id (unique per connection), and a session's lines (commands, replies, rule notes, blocklist hits, the verdict on a client certificate, or that a rule dropped the connection) are complete and in order even when sessions overlap.",
  ["inputs", "histories", "schedules"], "all sessions and interleavings",
  NOE, ["sinksmtp.go"], [("logMessage", "sinksmtp.go"), ("smtpLogger.Write single write", "sinksmtp.go"), ("connection counter", "sinksmtp.go:main")], (), ["log files"])
p("C23", "Do-nothing clients are stalled after -dncount failures, then forgiven",
  "A client address is stalled (4xx to every greeting, no SMTP log, slow replies as -S gives everyone) exactly while it has at least -dncount counted failures, the latest less than -dndur ago (without -dncount nobody ever is). A session counts when it ends without reaching -minphase, a repeated MAIL FROM replacing a non-null sender counts for a session still short of it, sessions with TLS failure or broken rules or already stalled do not count, and reaching -minphase clears the record; a failure after -dndur of quiet starts again from one. A matched make-yakker makes the client stalled from the end of that session whatever else the session did (a session dropped at connect excepted), and no other address is affected.",
  ["histories", "configurations", "schedules"], "all histories of sessions of several clients over time, for every count, window and minimum phase",
  "No test has a clock or a second connection.", ["sinksmtp.go"], [("ipMap Add/Set/Del/Lookup", "sinksmtp.go"), ("end-of-session accounting", "sinksmtp.go:process")],
  [("yakkers", "address to last time and count", "sinksmtp.go")], ["SMTP replies", "SMTP log", "do-nothing log"])
p("C24", "TLS is offered exactly when configured and not known to fail for the client",
  "STARTTLS is advertised and works exactly when the connection has certificates, no matching tls-opt off was in force by the EHLO, TLS is not already on, and the client address has had fewer than two TLS failures with the last under 72 hours ago; a client certificate is requested only when the address has no such failure and no tls-opt no-client applies, and a bad client certificate never prevents TLS. From the MAIL FROM after the post-STARTTLS greeting on, 'tls on' is true exactly when the session is encrypted.",
  ["histories", "configurations", "fault_sequences"], "all histories of TLS successes and failures of several clients over time, and all tls-opt rules",
  "No test makes a TLS connection.", ["sinksmtp.go", "rnodes.go"], [("notls lookup and tls.Config set-up", "sinksmtp.go:process"), ("tls-opt", "sinksmtp.go:decider"), ("TlsN", "rnodes.go")],
  [("notls", "address to TLS failures", "sinksmtp.go")], ["EHLO reply", "TLS handshake", "SMTP replies"])
p("C25", "A connection gets the name and certificates of its first -conncfg match",
  "A connection uses the first -conncfg line whose LOCAL field is '*', the local IP:PORT, the local address, or a CIDR block holding it: its hostname if given replaces the greeting name, and its certificates (or their absence, meaning no TLS) replace -c/-k. With no matching line or an unloadable file the command-line settings apply; without any name the greeting uses the first reverse-DNS name of the local address, else IP:PORT. The file, and the certificates it names, are read anew for each connection, its last line counting with or without a final newline.",
  ["inputs", "configurations", "histories"], "all config files, including broken ones, and local addresses",
  NOE, ["conncfg.go", "sinksmtp.go"], [("destMap.find, readConnFile", "conncfg.go"), ("server name selection", "sinksmtp.go:process")], (), ["greeting banner", "EHLO reply", "server certificate"])
p("C26", "No client and no loadable rule file can kill, hang or drain the server",
  "Whatever bytes clients send and however they disconnect, and whatever text the rule, pattern and connection files contain, the server keeps running, answers every in-sequence command, keeps serving other connections, and after the sessions end holds no goroutines, connections or files for them.",
  ["inputs", "programs", "fault_sequences", "histories"], "all client byte streams, disconnect points and file contents",
  "One test checks that one parse error leaves no lexer goroutine, and is not run here.", ["sinksmtp.go", "rules.go", "rnodes.go", "rparse.go", "rlex.go", "conncfg.go"],
  [("deferred closes", "sinksmtp.go:process, loadRules, loadList"), ("lexer drain", "rparse.go:Parse"), ("bounds checks", "rules.go")], (), ["server process", "SMTP replies", "goroutine and descriptor counts"])
p("C27", "Convenience options act as their documented rules, ahead of the rule files",
  "-M refuses every finished message with 5xx but still logs and saves it; -fromreject refuses with 5xx senders matching its file; -toaccept refuses recipients not matching its file; -heloreject refuses at MAIL FROM, not before, clients whose EHLO name matches its file; a missing or empty file is as if the option were not given. They take priority over anything in -r files, and -nostdrules removes only the standard rules.",
  ["inputs", "configurations", "histories"], "all option combinations, file contents, rule files and sessions",
  NOE, ["sinksmtp.go"], [("buildRules", "sinksmtp.go")], (), ["SMTP replies", "saved files", "message log"])
p("C28", "The server refuses to start on unsafe or contradictory settings",
  "It exits non-zero without listening when it has neither -d nor -M nor -force-receive, when -save-hash is unknown or is msg without -l, when -dncount is set without -smtplog or with a -dndur under a second, -dnlog without -dncount, one of -c/-k without the other or unloadable, an invalid -minphase, an unwritable -d, a log file that cannot be opened, an unloadable -conncfg, an unloadable -r file or include, or an address that cannot be listened on (in which case others may have been served for a moment); with good settings it starts and serves every address given; either way it leaves no stray file in -d and keeps what -d and the logs held.",
  ["configurations"], "all combinations of options and file conditions",
  "main is never run by a test.", ["sinksmtp.go", "conncfg.go"], [("flag validation", "sinksmtp.go:main")], (), ["exit status", "listening sockets", "save directory"])
p("C29", "Published counters equal what really happened",
  "At rest, the counters at /debug/vars equal the true totals over any mix of sessions: connections, commands received and accepted by kind, messages received, quits and aborts, TLS failures, rule-loading errors, stalled and newly stalled clients, and reported DNS blocklist hits per list and per SBL record.",
  ["histories", "schedules"], "all histories of sessions, overlapping or not",
  NOE, ["sinksmtp.go"], [("events counters", "sinksmtp.go:process, main"), ("setupExpvars", "sinksmtp.go")], (), ["/debug/vars"])
p("C30", "The do-nothing log and notices report each stalled client, once",
  "With -dnlog each connection of a stalled client writes exactly one 'connection' line (time, connection id, client, local address), and each session whose end takes its client's count to exactly -dncount writes one 'added' line, or one 'force-set' line if make-yakker newly made the client stalled; no other session writes anything there. The same two events, and a connection cut off because repeated MAIL FROMs took the count past -dncount, are each noted once among that session's SMTP log lines.",
  ["histories", "configurations", "schedules"], "all histories of sessions of several clients, overlapping and over time",
  "No test has a clock or a second connection.", ["sinksmtp.go"], [("yakLog", "sinksmtp.go"), ("end-of-session accounting", "sinksmtp.go:process")],
  [("yakkers", "address to last time and count", "sinksmtp.go")], ["do-nothing log", "SMTP log"])
p("C31", "Per-address statistics and last-event times match the history",
  "At rest, /debug/vars gives under 'last' the time of the latest connection, regular and stalled session, received message and session that reached -minphase (other than 'message'), each present exactly if it ever happened. With -statsperip or several listening addresses, and only then, 'connects_to' holds the exact number of connections to each local host:port and 'lasts_to' those times for each.",
  ["histories", "configurations"], "all histories of sessions to several local addresses and ports over time",
  NOE, ["sinksmtp.go"], [("updateTimeOf", "sinksmtp.go"), ("setupExpvars", "sinksmtp.go"), ("loccounts", "sinksmtp.go:process")], (), ["/debug/vars"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
