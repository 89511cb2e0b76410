"""Writes MANIFEST.json: a property is claimed when it has an entry in CLAIM and a module in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "Static analysis of the LLVM IR that clang makes of /repo's current sources (server, library, modules mod_diag, mod_gif, mod_lua); nothing is executed. "
CLAIM = {
 "C01": ("abstract interpretation of bounds (intervals and linear inequalities over IR)", NOTE + "Every access and copy on the request side into an object or array field of known size is an obligation; sites whose bound the domain cannot express are reported as undecided in the evidence and raise no alarm."),
 "C02": ("provenance and guard analysis of file system paths by abstract interpretation, with the path scanner decided in product with the automaton of parent segments", NOTE + "Every call that reaches the file system with text of the request is an obligation; symbolic links inside the served directory are outside the property."),
 "C03": ("typestate and dataflow of the credentials by abstract interpretation of every path of the request handlers", NOTE + "Every success response of the handler with authentication settings is an obligation. Finding location:undecoded is recorded."),
 "C04": ("typestate analysis of every path of the completed-request functions by abstract interpretation", NOTE + "Queued heads, bodies, delegations and closes on each path are counted at each return; the script of mod_lua counts as one answer when it ran."),
 "C05": ("typestate analysis of completion callbacks for each value of the keep alive flag by abstract interpretation", NOTE + "The flag is fixed per run (four flag words), so every decision on it is resolved."),
 "C06": ("reachability of terminating calls by abstract interpretation of the parser (loop split by parsing state) and of the event callbacks", NOTE + "The parser is analysed for arbitrary bytes in arbitrary division; terminating calls, divisions and constant tables reached from received data are the obligations."),
 "C07": ("value-range analysis of the length field by abstract interpretation of the parser, loop split by parsing state", NOTE + "Every store to the length field and every byte skipped in a state that accumulates digits is an obligation."),
 "C08": ("dataflow on SSA loop variables of the parser, and typestate of the text marks in its callers by abstract interpretation", NOTE + "Equality of the event sequence is decided through its ingredients: no scanner variable is lost, no byte but the current one is read, no callback depends on the end of a read, marks follow the buffer."),
 "C09": ("typestate analysis of the functions that feed the parser or close a connection, by abstract interpretation of every path", NOTE + "After a parsing error, and after each call that may close the connection, the paths to the return are followed with the connection open and with it closed."),
 "C10": ("symbolic text of the response heads by abstract interpretation, compared with body length and written size", NOTE + "Formatted text is assumed to fit its buffer (C01 shows it stays inside) and sizes to be below 4 GiB."),
 "C12": ("abstract interpretation of the range parser and the senders with linear inequalities", NOTE + "0 <= first <= last < size is shown where a partial response is written."),
 "C14": ("lifetime analysis of connections in the event loop by abstract interpretation of queueing, polling and dispatching", NOTE + "Both polling systems are analysed (the program is also translated without epoll)."),
 "C16": ("table extraction by abstract interpretation of every polling operation from every recorded state, compared with the contract of the operation", NOTE + "Both polling systems are analysed (the program is also translated without epoll); kqueue is not translated here (no such system)."),
 "C13": ("typestate analysis of the closing functions from every state of a connection, and who-frees analysis, by abstract interpretation", NOTE + "Each start state (open, handshaking, closed; plain or encrypted; with a re-entering close handler) is one obligation per effect."),
 "C15": ("typestate and linear-relation analysis of the write queue functions by abstract interpretation of every path", NOTE + "Head element, bytes sent, remaining size, pop, callback and release are followed per iteration; the queue itself is taken to be first-in first-out (linked_list)."),
 "C17": ("typestate analysis of the set and unset functions and their callers by abstract interpretation of every path", NOTE + "Each callback slot and the context at each exit of each handler, and each call site that exchanges or removes a handler, is an obligation."),
 "C18": ("typestate analysis of the connection handlers in plain and in encrypted mode for every class of result, compared with each other, by abstract interpretation", NOTE + "The result classes of the socket and session calls are the contract of the operating system and of OpenSSL; the session library itself is not analysed."),
 "C19": ("typestate analysis of socket creation up to registration, and effect analysis of the handlers, by abstract interpretation", NOTE + "Two findings are recorded: the outgoing connections of the client are made with blocking calls."),
 "C28": ("abstract interpretation of bounds, and linear-congruence evaluation of the length formulas", NOTE + "Every access of the codecs, digests and cipher into their input (a buffer of the given length, below 2 GiB), output and state is an obligation; undecided sites (bencoding marks, base 64 output index) are listed in the evidence."),
 "C29": ("relational checks of table initialisers and exact piecewise-linear evaluation of one-byte functions over IR", NOTE + "Each row and entry of the tables, and each input interval of the character functions, is an obligation."),
 "C31": ("effect analysis of the code reachable from the signal handler, and dominance checks in the main loops", NOTE + "The allow-list of effects is the async-signal contract stated by the property."),
 "C22": ("case-complete abstract interpretation of the option loading with every lookup decided per case; symbolic terms of the resulting fields", NOTE + "Each option x who gives it x whether the others are given is a case; the resulting field terms are compared with the source that has priority. A loop over the loading phases would not be resolved."),
 "C23": ("abstract interpretation of bounds (intervals and linear inequalities over IR)", NOTE + "Every access and copy of the file, template, URL and argument parsers is an obligation; eight named places whose bound needs a relation the domain does not carry are reported undecided."),
 "C25": ("typestate and ownership analysis of every acquired resource by abstract interpretation of every path, failures included", NOTE + "Ownership transfer (stored, returned, released by a callee) is derived from the code of the callees."),
 "C27": ("path-sensitive dataflow of failed steps by abstract interpretation of every function, and a use query on the results of calls that report failure", NOTE + "Every fallible step is split into success and failure; a null result, a failed descriptor or an unset output must not be used. Every call reporting a failure by its result has it looked at, or is listed with the reason."),
 "C32": ("dataflow of values never given by abstract interpretation of every function, and must-be-assigned analysis of the fields of allocated structures", NOTE + "Reads of locals and of storage allocated in the analysed function are followed per path; for fields that outlive the function, every field read anywhere is set on all paths by the function that allocates it, or is listed with the reason."),
 "C30": ("typestate analysis of the load, unload and module entry functions by abstract interpretation of every path", NOTE + "Library handle, symbol, information result and start result are events; the exits and the registration are the obligations. Modules mod_php and mod_wsgi are not built here (their headers are absent) and are not analysed."),
}
NA = {
 "C33": "The computed values (digests, compressed data, rendered text, sort order) are runtime quantities; no sound static argument in reach bounds them for this code, and running the algorithms is a different family.",
 "C34": "Bounded response time depends on scheduling, load and kernel readiness, which the source does not determine.",
 "C35": "Equality of the bytes sent with the bytes stored depends on the contents read at run time; the parts visible in the source (lengths, ranges, queue order) are decided under C10, C12 and C15.",
}
PENDING = "No check yet."
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []; na = []
for p in props:
    if p in CLAIM and os.path.exists("%s/checks/%s.py" % (V, p)):
        t, n = CLAIM[p][:2]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p, "technique": t, "level": "other", "level_note": n})
    else: na.append({"property": p, "reason": NA.get(p, PENDING)})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na, "notes": "Deciding step: static analysis of /repo's current source on every run; see DESIGN.md. No hooks are used."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
