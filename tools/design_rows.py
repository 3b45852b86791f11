#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between the markers) from the rules and the planted bugs."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from rules import RULES
ORACLE = {
 "C01": "D: every accessor of the request against the drawn values, at the start and the end of the handler",
 "C02": "D: call order; A: number, order and completeness of responses, closing, against the conversation model",
 "C03": "D: strict RFC 9112 parse of each response against the plan (status line, header multiset, cookies, framing, body)",
 "C04": "D: request values as in C01, environment, context, parameters; response against its own plan only",
 "C05": "D: as C01/C03/C16/C17 per client; timed clients get responses at the very virtual moment due",
 "C06": "D: bytes per access method, error vs end of body, gates (client waits for the handler inside the body); A: next request parsed",
 "C07": "D: accepted below and at the limit, refused with the documented status above it, whatever the cuts",
 "C08": "D: no panic, no deadlock, step budget; victims checked against the full model; A: everything released",
 "C09": "D/A: virtual time of closing in [timeout, timeout + allowance] of the last progress; active clients never dropped",
 "C10": "A: established clients get everything due, late ones nothing, Serve returns nil after the last, callbacks once",
 "C11": "A: Serve returns the right error promptly, every connection closed, callbacks once and in order",
 "C12": "D: streams and files closed before the next request; A: no task, connection, listener or descriptor left",
 "C13": "D/A: handler, encryption mark and certificate by listener; all or none bound; bind/start/stop callbacks",
 "C14": "D: bytes seen by the hijacker = bytes sent after the request; nobody else reads, writes or closes the connection; A: what the client gets",
 "C15": "A: each start serves a valid matching pair or fails with an error; a start on a healthy disk always works; a good pair is kept",
 "C16": "D: handler, middleware order, parameters, alias, errors against a reference router; response",
 "C17": "D: contents, type and length against the simulated tree; nothing outside the root in any response",
 "C18": "D: which router is called, status otherwise; error handler of the right host",
 "C19": "D: 101 then final response, protocol of the request, connection state afterwards",
 "C20": "D: response bytes against the scripted stream; a failed stream never looks complete; produced bytes sent before the next wait",
 "C21": "D: error handler once with the right code, no call for the malformed request or anything after; A: closed",
 "C22": "D: each good request answered at the moment due in spite of waves and crowds; A: nothing left over",
 "C23": "D: exactly one line with the right text per logger when the request has been handled, only printable bytes; A: totals",
 "C24": "D: handler calls by encryption of the listener; Location parsed and compared by parts, response otherwise ordinary",
 "C25": "D: no overlapping calls, nothing after the notification, HTTP error only; A: exactly one per accepted connection, none for hijacked ones; endless streams given up and closed",
 "C26": "D: orders for listed names only, chain, name, key and validity of each certificate, no second order after a restart, negotiated protocol; A: recovery after the failures",
}
rows = ["| id | workload | oracle, checked during (D) and after (A) the run |", "|----|----------|--------------------------------------------------|"]
for k in sorted(RULES):
    rows.append("| %s | %s | %s |" % (k, RULES[k], ORACLE[k]))
seeds = ["| planted bug | property | caught by its check | needs |", "|---|---|---|---|"]
caught = json.load(open(HERE + "/tools/caught.json"))
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, d)))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], caught.get(d, "not run"), m["needs"].replace("|", "/").replace("\n", " ")))
p = HERE + "/DESIGN.md"
s = open(p).read()
for name, lines in (("table", rows), ("seeds", seeds)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % name, lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
