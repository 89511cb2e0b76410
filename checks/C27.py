"""Two rules.  (1) Every function is interpreted on its own, over all its paths; every step that can fail (a file that is not there, a
socket, a session or a library that cannot be had, a text that does not contain what is searched, a lookup that finds nothing) is
split into success and failure, called functions that work on storage of the analysed function being analysed in place.  A missing
(null) result is never read, written, called or handed to a library function that reads it, a failed descriptor is never used, and
what a failed step left unset is not used.  (2) Every call of a function that reports failures by its result (those that record an
error and return its code, and those that hand on such a result, indirect calls included) and of the library steps that do has that
result looked at; the calls whose failure is noticed otherwise are listed with the reason."""
from vsa import values, ignored, owner, slots
# the failure of these is noticed without the result of the call
OTHERWISE = {
    "decode_percent": "what was decoded so far is terminated, and paths are checked once decoded",
    "list_directory_file": "the list of entries is created by the caller and stays empty",
    "process_template_engine": "the page stays empty",
    "_process_argument": "an argument that is not valid is left out",
    "_run_bencoding_engine": "the top value stays unset, which its users test",
    "open_file": "the file stays null, which is tested",
    "auth_file_http": "access stays refused",
    "parse_url_static": "the parts stay empty: the connection to an empty host is refused",
    "_send_response_handler_lua": "the connection is closed by the caller of the handler",
    "_poll_polling_epoll": "no connection is marked as ready", "_poll_polling_select": "no connection is marked as ready",
    "_register_sockets_set_polling_select": "the sockets of a closed connection are not in the sets", "_unregister_sockets_set_polling_select": "the sockets of a closed connection are not in the sets",
    "write_handler_stream_io": "the connection is closed before the error is raised",
    "connection_t.on_read": "the connection is closed before the error is raised", "connection_t.on_write": "the connection is closed before the error is raised",
    "get_write_time_file": "the time was cleared before",
    "polling_t.register_read": "a connection that cannot be polled is closed by its owner", "polling_t.unregister_read": "as above", "polling_t.register_write": "as above", "polling_t.unregister_write": "as above",
    "polling_t.add_outstanding": "as above", "polling_t.remove_outstanding": "as above", "polling_t.register_connection": "as above", "polling_t.unregister_connection": "as above",
    "register_read_polling_epoll": "a connection that cannot be polled is closed by its owner", "unregister_read_polling_epoll": "as above", "register_write_polling_epoll": "as above", "unregister_write_polling_epoll": "as above",
    "add_outstanding_polling_epoll": "as above", "register_connection_polling_epoll": "as above", "unregister_connection_polling_epoll": "as above",
}
UNDECIDED = {
    "generate_table_huffman:null:reads": "a queue of more than one element yields an element",
    "load_modules_service:null:lets": "an entry of a directory has a name",
    "pool_runner_thread:null:reads": "a queue that is not empty yields a task",
    "close_backend_handler:null:reads:get_value_string_hash_map": "the proxy handler is registered while its connections exist",
    "close_proxy_connection:null:reads:get_value_string_hash_map": "the proxy handler is registered while its connections exist",
    "delete_directory_entries_map_file:null:reads:get_value_string_hash_map": "the maps are filled with these keys by entries_to_map_file",
    "print_arguments:null:reads:get_value_hash_map": "the key is the one of an element of the map",
}
def undecided(p, key):
    f, _, rest = key.partition(":")
    for o in owner.owners(p, f):
        for k in UNDECIDED:
            if "%s:%s" % (o, rest) == k or k.count(":") == 2 and ("%s:%s" % (o, rest)).startswith(k + ":"): return UNDECIDED[k]
def otherwise(p, sl, nm, depth=3):
    """why the failure of the function is noticed otherwise: it is listed, or hands on only failures of listed ones"""
    if nm in OTHERWISE: return OTHERWISE[nm]
    f = p.fns.get(nm)
    if f is None or depth == 0: return None
    why = None
    for k, v in ignored.returned(f):
        if k == "int" and v == 0: continue
        if k != "call": return None
        ns = [t if isinstance(t, str) else t.name for t in sl.targets(f, v)]
        for n in ns:
            why = otherwise(p, sl, n, depth - 1)
            if why is None: return None
    return why
def run(ctx):
    p = ctx.prog(); sl = slots.static(p)
    found, good, n = values.sweep(ctx, p)
    ctx.rule("functions analysed", n, 300)
    for k in ("dereference", "descriptor"):
        ctx.rule("uses of %ss" % k, len(good.get(k, ())), 5)
        ctx.ok("the %s is not the result of a failed step" % k, None, len(good.get(k, ())))
    for (kind, key), (m, w, r) in sorted(found.items()):
        if kind == "undef" and " was not found" not in m: continue
        why = undecided(p, key)
        if why: ctx.open(key, "%s: %s" % (m, why))
        else: ctx.bad(key, m, w, "analysed from the entry of %s" % r)
    steps = 0; seen = {}
    for f, i, nm, ok in ignored.calls(p):
        steps += 1
        if ok: ctx.ok("the result of a step that can fail is looked at", "%s in %s" % (nm, f.name))
        elif otherwise(p, sl, nm): ctx.ok("a failure noticed otherwise", "%s in %s: %s" % (nm, f.name, otherwise(p, sl, nm)))
        else:
            k = "%s:ignored:%s" % (f.name, nm)
            if k not in seen: ctx.bad(k, "%s does not look at the result of %s, which reports a failure by it" % (f.name, nm), i.where)
            seen[k] = 1
    ctx.rule("calls of steps that can fail", steps, 60)
