NOTES = "See DESIGN.md. Every check regenerates its encoding from /repo's working tree."
NA = {}
C = {}


def E(entry, quick, thorough, qs=60, ts=600, **kw):
    d = {"entry": entry,
         "quick": {"params": quick, "seconds": qs},
         "thorough": {"params": thorough, "seconds": ts}}
    if "preempt" in kw:
        p = kw.pop("preempt")
        d["quick"]["preempt"], d["thorough"]["preempt"] = p
    d.update(kw)
    return d


STORE = "bbolt replaced by an in-memory model of its documented contract: serialised writers, snapshot readers, all-or-nothing commits (validated natively against real bbolt on sampled paths)"
GOB = "gob encoding modelled as a lossless copy of exported fields that drops empty slices and maps"
LOG = "logging is without effect"
FOLD = "text folding of strings with bytes >= 0x80 is executed on concrete strings only"

C["C08"] = dict(
    note="All operation sequences up to the bound over six start directories with symbolic one-letter names (any of 52 letters), compared with a reference directory after the sequence.",
    entries=[
        E("hdb.Large", [{"ops": 1}], [{"ops": 2}], qs=60, ts=900, covers=["add ok", "add refused", "delete ok", "delete refused", "rename ok", "rename refused"],
          bounds="few symbolic bytes in a large input: one (thorough 2) operations on a directory of 13 entries with 7 siblings and 6 levels, at the top, in the middle and at the bottom"),
        E("hdb.Mirror", [{"ops": 2}], [{"ops": 2}, {"ops": 3}], qs=60, ts=1500,
          covers=["add ok", "add refused", "delete ok", "delete refused", "modify ok", "rename ok", "rename refused", "audited"],
          bounds="six start directories of 0 to 5 entries; 2 (thorough 3) add/delete/modify/rename operations; names of depth 0..2 below the base or outside of it, one symbolic letter per component"),
        E("hdb.Rename", [{}], [{}], qs=60, ts=600, covers=["old removed", "old kept"],
          bounds="rename of an entry named by one or two values, with further values of the naming attributes, to a name of one or two values of the same or other attributes (letters a, b, c in both cases), keeping or deleting the old values"),
    ],
    assumptions=[STORE, GOB, LOG, "deleting the base entry itself is only considered when refused", "renaming an entry to its own name is not considered"],
    outside="longer sequences, deeper trees, component values longer than one letter, non-ASCII names")
C["C09"] = dict(
    note="Every tree of n entries below the base, every search target (existing in any letter case, or missing) and scope.",
    entries=[
        E("hdb.Large", [{"ops": 1}], [{"ops": 2}], qs=60, ts=900, covers=["add ok", "add refused", "delete ok", "delete refused", "rename ok", "rename refused"],
          bounds="few symbolic bytes in a large input: one (thorough 2) operations on a directory of 13 entries with 7 siblings and 6 levels, at the top, in the middle and at the bottom"),E("hdb.Search", [{"n": 5}], [{"n": 6}], qs=60, ts=900, covers=["base", "one", "sub", "missing"],
               bounds="all trees of 5 (thorough 6) entries below the base with symbolic one-letter names; all targets; all scopes; search name in any mixture of letter case")],
    assumptions=[STORE, GOB, LOG],
    outside="larger trees, scopes other than base, one-level and subtree")
C["C10"] = dict(
    note="All modify requests of up to two changes with up to two symbolic values each on entries with symbolic values, against an independent reference.",
    entries=[
        E("hdb.LargeModify", [{}], [{}], qs=60, ts=600, covers=["accepted"],
          bounds="few symbolic bytes in a large input: 6 changes, two of them symbolic, to an entry with 8 attributes of up to 6 values"),
        E("hdb.Modify", [{"changes": 2}, {"changes": 1, "multi": 1}], [{"changes": 2}, {"changes": 2, "multi": 1}, {"changes": 3, "values": 1}], qs=60, ts=900,
          covers=["accepted", "refused"],
          bounds="entry with 1..2 values of its naming attribute (or a two-part RDN) and 0..2 values of another; 1..2 (thorough 3) changes of kind add/delete/replace/increment, 0..2 values each; attribute types and values symbolic letters in both cases"),
    ],
    assumptions=[STORE, GOB, LOG, "stored values of an attribute are distinct without regard to case"],
    outside="more changes or values, values longer than one letter, non-ASCII values")
C["C11"] = dict(
    note="Round trip, idempotence and spelling-independence for symbolic names of bounded length over all ASCII bytes.",
    entries=[
        E("hdn.Large", [{}], [{}], qs=60, ts=600, covers=["round trip"],
          bounds="few symbolic bytes in a large input: names of 8 components, one of which has up to 5 parts and symbolic 7 bit characters at the beginning, in the middle or at the end of a longer value"),
        E("hdn.Idempotent", [{"n": 5}], [{"n": 7}], qs=30, ts=600, covers=["parsed"], bounds="all strings of 5 (thorough 7) characters over a B c 1 = , + ; < > \\ \" # and space"),
        E("hdn.RoundTrip", [{"rdns": 1, "avas": 1, "tl": 1, "vl": 3}, {"rdns": 2, "avas": 1, "vl": 1}, {"rdns": 1, "avas": 2, "vl": 1}], [{"rdns": 1, "avas": 1, "tl": 2, "vl": 4}, {"rdns": 2, "avas": 2, "vl": 1}, {"rdns": 2, "avas": 1, "vl": 2}], qs=45, ts=900,
          covers=["round trip"], bounds="one component with a value of up to 3 (thorough 4) arbitrary ASCII bytes; two parts in up to two components (thorough: three parts) with values of one (thorough two) bytes"),
        E("hdn.Shapes", [{"rdns": 3, "avas": 2}], [{"rdns": 4, "avas": 2}, {"rdns": 3, "avas": 3}], qs=30, ts=600, covers=["round trip"],
          bounds="up to 3 (thorough 4) components of up to 2 (thorough 3) parts each with values among a B +"),
        E("hdn.Letters", [{}], [{}], qs=30, ts=600, covers=["folded"],
          bounds="six pairs of non-ASCII texts that differ in letter case only, each with up to one ASCII character before and after"),
        E("hdn.Spellings", [{"rdns": 1, "avas": 1, "vl": 1, "spaces": 1}, {"rdns": 2, "avas": 1, "vl": 1, "spaces": 0, "types": 0}, {"rdns": 1, "avas": 2, "vl": 1, "spaces": 0, "types": 0}, {"rdns": 1, "avas": 1, "vl": 2, "spaces": 1, "types": 0}],
          [{"rdns": 1, "avas": 1, "vl": 2, "spaces": 1}, {"rdns": 2, "avas": 1, "vl": 1, "spaces": 1, "types": 0}], qs=45, ts=900,
          covers=["spelled"], bounds="all choices of letter case, verbatim/backslash/hex escaping and blanks around separators for values of up to 2 bytes in one component, and values of one byte in two components or parts (no blanks)"),
    ],
    assumptions=[FOLD],
    outside="longer names, other non-ASCII text, order of the parts of a multi-valued RDN, values given as #hex, a blank after a value that ends in a backslash (misparsed by the go-ldap dependency)")

SRV = "the server runs unchanged over in-memory connections (net.Conn and net.Listener implemented by the harness) with a back-end that records what reaches it and answers with symbolic outcomes"
BERLIM = "elements longer than 127 bytes and lengths in unusual encodings"

C["C02"] = dict(
    note="All interleavings of requests of bounded length on several connections with symbolic bind outcomes; every request must reach the back-end with the name of the latest successful bind of its own connection.",
    entries=[
        E("hsrv.LargeIdentity", [{}], [{}], qs=60, ts=600, covers=["evaluated with identity"],
          bounds="few symbolic bytes in a large input: two connections with identities of 7 components and 120 characters, up to 7 requests"),E("hsrv.Identity", [{"conns": 2, "steps": 3}], [{"conns": 2, "steps": 3}, {"conns": 3, "steps": 3}, {"conns": 2, "steps": 4}], qs=90, ts=1500,
               covers=["bound", "not bound", "evaluated", "evaluated with identity"],
               bounds="2 (thorough 3) connections, 3 (thorough 4) requests in any order over them, every operation, symbolic bind names and bind result codes"),
        E("hsrv.Odd", [{"elements": 2}], [{"elements": 3}], qs=60, ts=600, covers=["answered", "closed"],
          bounds="any other request: every application tag, up to 2 (thorough 3) elements of five kinds, on an anonymous or bound connection")],
    assumptions=[SRV, LOG],
    outside="longer request sequences, StartTLS")
C["C12"] = dict(
    note="Search results of the front end against an independent three-valued filter and scope reference, for a symbolic entry offered by the back-end.",
    entries=[
        E("hsrv.LargeFilter", [{}], [{}], qs=60, ts=600, covers=["match", "no match"],
          bounds="few symbolic bytes in a large input: conjunctions and disjunctions of 6 operands, up to 6 negations, 6 levels, substring assertions of 6 parts, 6 values"),
        E("hsrv.Filter", [{}, {"parts": 8, "vlen": 4, "attributes": 1}, {"assertion": 0}, {"depth": 2, "leaves": 1, "attributes": 1}, {"depth": 1, "attributes": 1}],
          [{"depth": 1}, {"parts": 8, "vlen": 5, "attributes": 1}, {"assertion": 0}, {"depth": 2, "leaves": 2, "attributes": 1}], qs=90, ts=1500,
          covers=["match", "no match", "unsupported"],
          bounds="entries of up to 2 attributes with a value of up to 2 (one attribute: 4) characters; filters of one comparison of any kind with up to three substring parts, and/or/not over up to two comparisons, nesting of depth 2 over equality; attribute types and values are symbolic letters and blanks in both cases"),
        E("hsrv.Scope", [{"base": 2, "entry": 4}], [{"base": 3, "entry": 4}], qs=60, ts=600, covers=["base", "one", "sub", "out of scope"],
          bounds="search base of up to 2 components and entry name of up to 4, with symbolic letters in any case and escaped separators; all scopes"),
    ],
    assumptions=[SRV, LOG, FOLD],
    outside="larger entries and filters, attribute types with characters other than letters, non-ASCII values")
C["C13"] = dict(
    note="Attributes and number of entries delivered for symbolic attribute lists, types-only flag and size limits.",
    entries=[
        E("hsrv.LargeSelection", [{}], [{}], qs=60, ts=600, covers=["exceeded", "within"],
          bounds="few symbolic bytes in a large input: 1 to 8 entries of 8 attributes with 8 values, 7 requested attributes, size limits 0 to 9"),
        E("hsrv.Selection", [{}], [{"attributes": 3, "requested": 3}], qs=60, ts=900, covers=["attribute", "left out"],
          bounds="entry of up to 2 (thorough 3) attributes with 1..2 symbolic values; up to 2 (thorough 3) requested names: symbolic letter, * or 1.1; types only or not"),
        E("hsrv.Limit", [{"entries": 4, "size": 5}], [{"entries": 6, "size": 7}], qs=60, ts=600, covers=["exceeded", "within"],
          bounds="up to 4 (thorough 6) candidate entries of which any subset matches, size limit 0..5 (thorough 7)"),
        E("hldif.Selection", [{}], [{"attributes": 3, "requested": 2}], qs=60, ts=900, covers=["attribute", "left out"],
          bounds="the same in the LDIF back-end, and that a search does not change the directory: up to 2 (thorough 3) attributes, up to 2 requested names"),
        E("hldif.Limit", [{"entries": 4, "size": 5}], [{"entries": 6, "size": 7}], qs=60, ts=600, covers=["exceeded", "within"],
          bounds="the same in the LDIF back-end with and without index: up to 4 (thorough 6) candidate entries, size limit 0..5 (thorough 7)"),
    ],
    assumptions=[SRV, LOG, "os and text/template replaced by models of their documented behaviour for the LDIF back-end"],
    outside="more entries and attributes, size limits of paged searches in the LDIF back-end")
C["C21"] = dict(
    note="Every request of bounded sequences must be answered with its own message id, the response type of its operation and the back-end's outcome.",
    entries=[E("hsrv.Answers", [{"requests": 1, "idlen": 4}, {"requests": 2, "idlen": 3}, {"requests": 3, "idlen": 1}], [{"requests": 2, "idlen": 4}, {"requests": 3, "idlen": 2}], qs=120, ts=1500,
               covers=["answered", "unsupported"],
               bounds="one request with a message id of 4 symbolic bytes, sequences of 2 requests with message ids of up to 3 (thorough 4) symbolic bytes, or 3 requests with one byte (thorough 2); every operation the protocol has; symbolic result codes and back-end errors"),
        E("hsrv.Results", [{"entries": 1, "values": 1}], [{"entries": 2, "attributes": 1, "values": 1}], qs=60, ts=600, covers=["entry"], bounds="searches answered with any result code and up to 1 (thorough 2) entries")],
    assumptions=[SRV, LOG],
    outside="abandon of a running request, longer sequences")
C["C22"] = dict(
    note="What the back-end sees must be what the client sent, and what the client receives must be what the back-end returned, for symbolic requests and results.",
    entries=[
        E("hsrv.LargeWrite", [{}], [{}], qs=60, ts=600, covers=["seen"],
          bounds="few symbolic bytes in a large input: add, modify and search requests and search results with 7 attributes, 7 values, values of 120, 130, 260 and 700 bytes, a name of 7 components and 120 characters"),
        E("hsrv.Write", [{"attributes": 1, "values": 3}, {"attributes": 2, "values": 2}], [{"attributes": 3, "values": 2}], qs=60, ts=900, covers=["seen"], bounds="add, modify, delete and rename requests of up to 2 (thorough 3) attributes or changes with up to 2 values, or one with up to 3, of symbolic bytes"),
        E("hsrv.BindPassword", [{}], [{}], covers=["bind", "change"], bounds="bind and password-change requests, symbolic bytes, every part present or absent"),
        E("hsrv.Query", [{}], [{}], covers=["seen"], bounds="search requests with symbolic base, scope, limits, flags and attribute lists"),
        E("hsrv.Results", [{"entries": 1}, {"entries": 2, "attributes": 1, "values": 1}], [{"entries": 2}], qs=60, ts=600, covers=["entry"], bounds="up to 2 entries with up to 2 attributes of up to 2 values of symbolic bytes"),
        E("hsrv.MalformedChange", [{}], [{}], covers=["refused"], bounds="password-change bodies cut off at any place, with any other outer type, a surplus part or a part of any other type; symbolic content"),
        E("hsrv.Malformed", [{}], [{}], covers=["refused"], bounds="every well-formed request with one element of its tree removed, retyped or duplicated"),
    ],
    assumptions=[SRV, LOG, "a modification without values field and a wrongly typed types-only flag or attribute list are read as empty rather than refused"],
    outside="larger requests, " + BERLIM)
C["C23"] = dict(
    note="Statistics after bounded histories of requests and connections, and under all interleavings of concurrent connections up to a preemption bound, including freedom from data races.",
    entries=[
        E("hsrv.LargeIdentity", [{}], [{}], qs=60, ts=600, covers=["evaluated with identity"],
          bounds="few symbolic bytes in a large input: two connections with identities of 7 components and 120 characters, up to 7 requests"),
        E("hsrv.Counts", [{"steps": 3}], [{"steps": 5}], qs=60, ts=900, covers=["checked", "request", "unbind", "hangup"], bounds="histories of 3 (thorough 5) connects, requests, unbinds and hangups"),
        E("hsrv.ConcurrentCounts", [{"late": 0}, {"conns": 1}], [{"late": 0}, {"conns": 1}], qs=90, ts=900, sched=True, preempt=(1, 2), covers=["checked", "observed"], bounds="two connections with one request each and a reader, or one, a later one and a reader; up to 1 (thorough 2) preemptions"),
        E("hsrv.Metrics", [{}], [{}], qs=60, ts=600, covers=["collected"], bounds="the metrics registered by a server for statistics of which each is zero or one"),
    ],
    assumptions=[SRV, LOG],
    outside="more connections and preemptions, the text exposition of metrics")
C["C24"] = dict(
    note="Requests for symbolic names against symbolic sets of registered bases: the most specific base that contains the name must serve the request.",
    entries=[
        E("hsrv.LargeRoute", [{}], [{}], qs=60, ts=600, covers=["routed", "no handler"],
          bounds="few symbolic bytes in a large input: 5 nested suffixes of 1 to 5 components registered in any rotation, up or down, and names of up to 7 components, one of which is symbolic"),
        E("hsrv.Route", [{"handlers": 2, "depth": 1}, {"handlers": 2, "depth": 2, "target": 2}, {"handlers": 2, "depth": 2, "target": 2, "long": 0, "forms": 3, "ops": 1}], [{"handlers": 2, "depth": 2, "target": 2, "long": 0, "forms": 3, "ops": 1}, {"handlers": 2, "depth": 2, "target": 3}, {"handlers": 3, "depth": 2, "long": 0}], qs=60, ts=900,
          covers=["routed", "routed below a suffix", "no handler"], bounds="2 (thorough 3) registered bases of up to 2 components, request names of up to 2 (thorough 3) more components, symbolic letters in both cases; every operation; components of several parts, escaped separators and blanks for deletes"),
        E("hsrv.Route", [{"handlers": 2, "depth": 2, "target": 2, "long": 0}], [{"handlers": 2, "depth": 2, "target": 2}], qs=90, ts=900, maporder=True,
          covers=["routed", "routed below a suffix", "no handler"], bounds="the same for every iteration order of the registration table"),
    ],
    assumptions=[SRV, LOG],
    outside="more or deeper bases")
APP = "the server is the one cmd/idmd starts (pkg/server with its configuration), over in-memory connections and an in-memory model of bbolt"
HASH = "password hashing modelled: SHA-1 as an injective function, argon2id and crypt as functions of password, salt and parameters; random data is symbolic"

C["C01"] = dict(
    note="Sequences of binds and write requests by clients with symbolic names and addresses; the directory must be unchanged unless the client is bound as the administrator.",
    entries=[
        E("hbolt.Long", [{}], [{}], qs=60, ts=600, covers=["accepted", "refused"],
          bounds="few symbolic bytes in a large input: names and passwords of 8 to 200 characters that differ in the last one or two if at all, an administrator whose name is the end of that of the user"),E("hbolt.AdminOnly", [{"steps": 2}], [{"steps": 2}, {"steps": 3}], qs=60, ts=1500,
               covers=["refused", "written by the administrator"],
               bounds="2 (thorough 3) requests on a connection from any address: binds with right and wrong passwords, adds, modifies, deletes and renames; administrator name symbolic or not configured; names one symbolic letter per component")],
    assumptions=[APP, STORE, GOB, LOG],
    outside="longer sequences; the LDIF back-end, which has no write operations")
C["C03"] = dict(
    note="All bind requests with symbolic passwords against entries with no, one and several stored passwords.",
    entries=[
        E("hbolt.Long", [{}], [{}], qs=60, ts=600, covers=["accepted", "refused"],
          bounds="few symbolic bytes in a large input: names and passwords of 8 to 200 characters that differ in the last one or two if at all, an administrator whose name is the end of that of the user"),
        E("hbolt.Bind", [{"n": 3, "m": 3}], [{"n": 5, "m": 5}], covers=["accepted 0", "accepted 1", "accepted 2", "accepted 3", "refused 0", "refused 1"],
          bounds="entries with no, one, several, hashed or empty stored passwords; symbolic stored and presented passwords of up to 3 (thorough 5) bytes; names in any letter case"),
        E("hbolt.Odd", [{"free": 3}], [{"free": 4}], qs=60, ts=600, covers=["anonymous", "refused"],
          bounds="names of up to 3 (thorough 4) arbitrary bytes, empty names and passwords, any client address, anonymous binds enabled or not, other authentication methods"),
    ],
    assumptions=[APP, STORE, GOB, LOG, HASH],
    outside="longer names and passwords, StartTLS")
C["C05"] = dict(
    note="Comparison of symbolic passwords with stored values of every scheme, and arbitrary malformed stored values.",
    entries=[
        E("hpw.Match", [{"n": 5}, {"n": 2, "pad": 7}, {"n": 1, "pad": 71}], [{"n": 8}, {"n": 3, "pad": 7}, {"n": 2, "pad": 71}], qs=60, ts=600,
          covers=["match 0", "match 1", "match 2", "match 3", "match 4", "mismatch 0", "mismatch 1", "mismatch 2", "mismatch 3", "mismatch 4", "unknown scheme"],
          bounds="passwords of up to 5 (thorough 8) arbitrary bytes, or of 7 or 71 fixed ones and up to 2 (thorough 3) arbitrary ones, stored plain, as SSHA, as argon2id (made by this code), as crypt"),
        E("hpw.Malformed", [{"n": 4}], [{"n": 6}], qs=60, ts=600,
          covers=["malformed 0", "malformed 1", "malformed 2", "malformed 3", "malformed 4", "malformed 5", "malformed 6", "malformed 7"],
          bounds="stored values with a known or unknown scheme followed by up to 4 (thorough 6) arbitrary bytes or with parts left out"),
        E("hpw.Parameters", [{}], [{}], covers=["refused"], bounds="argon2 values with any one-digit version, time and threads parameters and missing or malformed parts"),
    ],
    assumptions=[HASH, "a crypt value only considers 7 bits of the first 8 bytes (traditional DES scheme)"],
    outside="longer passwords, the strength of the hash functions")
C["C06"] = dict(
    note="Password changes by symbolic clients for symbolic targets with symbolic old and new passwords; outcome and the whole directory compared with the rules.",
    entries=[
        E("hbolt.Long", [{}], [{}], qs=60, ts=600, covers=["accepted", "refused"],
          bounds="few symbolic bytes in a large input: names and passwords of 8 to 200 characters that differ in the last one or two if at all, an administrator whose name is the end of that of the user"),E("hbolt.PasswordChange", [{}], [{}], qs=60, ts=600, covers=["changed", "generated", "refused"],
               bounds="identities: none, anonymous, failed bind, bound, bound twice; administrator name symbolic or not configured; targets: own, any letter at two depths, other forms; old password absent or up to 2 bytes; new password absent or up to 2 arbitrary bytes")],
    assumptions=[APP, STORE, GOB, LOG, HASH],
    outside="longer names and passwords")
C["C07"] = dict(
    note="The password returned for a password change without a new one must be the one stored, of the configured length and drawn from the alphabet, for all values of the random source.",
    entries=[E("hbolt.Generate", [{"steps": 2}], [{"steps": 3}], qs=60, ts=600, covers=["generated", "given", "refused"],
               bounds="2 (thorough 3) password changes on one server, with and without new password; all values of the random source")],
    assumptions=[APP, STORE, GOB, LOG, HASH, "the random source of the system is uniform"],
    outside="longer generated passwords")
C["C20"] = dict(
    note="Arbitrary and mutated requests must not end the server, and other clients must still be served.",
    entries=[
        E("hcrash.Many", [{"n": 1}], [{"n": 2}], qs=60, ts=900, covers=["survived"],
          bounds="few symbolic bytes in a large input: 4, 7 and 40 controls, filter levels, operands, parts, requested attributes, name components, attributes and changes, the first or last of which is any 0 or 1 (thorough 2) bytes"),
        E("hcrash.Bytes", [{"n": 4}], [{"n": 5}], qs=60, ts=900, covers=["survived"], bounds="any 1 to 4 (thorough 5) bytes instead of a request"),
        E("hcrash.Mutate", [{"bytes": 1}, {"bytes": 1, "ldif": 1}], [{"bytes": 1}, {"bytes": 1, "cut": 1}, {"bytes": 1, "ldif": 1}], qs=60, ts=900, covers=["survived"], bounds="eleven requests of all kinds with any one byte replaced by any other"),
        E("hcrash.Shape", [{"n": 0}], [{"n": 1}, {"n": 0, "ldif": 1}], qs=90, ts=1200, covers=["survived"], bounds="the same requests with any one element (also inside of values) removed, repeated, emptied, replaced by or accompanied by an empty (thorough: up to one byte long) element of any tag"),
        E("hcrash.Names", [{"n": 3}, {"n": 2, "ldif": 1, "requests": 2}], [{"n": 4}, {"n": 3, "ldif": 1}], qs=60, ts=900, covers=["survived"], bounds="every request with a name of up to 3 (thorough 4) arbitrary bytes, alone or in front of the base name"),
        E("hcrash.Controls", [{"n": 1}], [{"n": 1, "requests": 2}, {"n": 1, "ldif": 1}], qs=60, ts=900, covers=["survived"], bounds="every control type known to the decoder with missing, empty or arbitrary short values"),
        E("hcrash.Filters", [{"n": 2, "depth": 0}, {"n": 2, "depth": 0, "ldif": 1, "only": 0xa4}, {"n": 2, "depth": 0, "ldif": 1, "only": 0xa3}], [{"n": 2, "depth": 0}, {"n": 2, "depth": 0, "ldif": 1}], qs=60, ts=900, covers=["survived"], bounds="filters with a symbolic element of any kind and up to two parts"),
    ],
    assumptions=[APP, STORE, GOB, LOG],
    outside="longer requests, several mutations at once, exhaustion of memory or stack by very large or deeply nested requests")

FILES = "the file system is an in-memory model (files and folders, no links, no permissions); text/template is a model of literal text, comments, fields and calls with constant arguments (both validated natively on sampled paths)"
LAPP = "the server is the one cmd/idmd starts with LDIF files (pkg/server with its configuration), over in-memory connections"

C["C18"] = dict(
    note="Every storage call of every write operation may fail, and the process may die after every commit.",
    entries=[
        E("hdb.Faults", [{"faults": 1, "crash": 1}], [{"faults": 1, "crash": 1}], qs=60, ts=900, confirm="engine", no_native_samples=True, covers=["failed", "crashed", "done"],
          bounds="add, delete, modify, rename and password change of symbolic names in six directories of up to five entries, with one failing storage call (begin, put, delete, sequence, commit) or a crash after a commit; the database opened again afterwards"),
        E("hbolt.Faults", [{"faults": 1}], [{"faults": 1}], qs=60, ts=900, confirm="engine", no_native_samples=True, covers=["failed", "done", "refused"],
          bounds="the same requests over a connection to a complete server, with a restart afterwards"),
    ],
    assumptions=[APP, STORE, GOB, LOG, HASH],
    outside="several failing calls in one operation, failures inside bbolt after which the file is damaged, failing reads (bbolt reads cannot fail)")
C["C19"] = dict(
    note="Pairs of operations under all interleavings up to a preemption bound, compared with both sequential orders; data races are reported as well.",
    entries=[
        E("hdb.Concurrent", [{"shapes": 2}], [{"shapes": 4}], qs=70, ts=900, sched=True, preempt=(1, 2), confirm="engine", covers=["both done", "one of two"],
          bounds="two concurrent operations of any kind (add, delete, modify, rename, password change, search) on symbolic names in 2 (thorough 4) small directories, up to 1 (thorough 2) preemptions"),
        E("hbolt.Concurrent", [{}], [{}], qs=70, ts=900, sched=True, preempt=(1, 2), confirm="engine", covers=["compared"],
          bounds="two such requests (or a bind) on two connections of a complete server, up to 1 (thorough 2) preemptions"),
    ],
    assumptions=[APP, STORE, GOB, LOG, HASH, "scheduling changes at synchronisation and storage calls only; that is complete for code without data races, which are reported"],
    outside="three or more concurrent operations, more preemptions")
C["C29"] = dict(
    note="The newusers command on lists with symbolic names and numbers and every number of fields.",
    entries=[
        E("hcmd.Many", [{}], [{}], qs=60, ts=600, covers=["made"],
          bounds="few symbolic bytes in a large input: 7 users, one of whom has symbolic numbers that clash with assigned ones or not"),
        E("hcmd.NewUsers", [{"lines": 1, "n": 2}, {"lines": 2}], [{"lines": 1, "n": 3}, {"lines": 2, "n": 2}], qs=60, ts=900, covers=["made", "refused"],
          bounds="lists of one or two lines with 1 to 8 fields, symbolic user names, user and group numbers of up to 2 (thorough 3) digits or missing or malformed, strong, weak or no passwords, several forms of full names"),
        E("hcmd.LongLine", [{}], [{}], qs=60, ts=900, no_native_samples=True, covers=["handled"], bounds="a line of 70000 characters before or after another one"),
    ],
    assumptions=["the command is run through its cobra command; os.Exit, standard output and files are in-memory models", "password strength is a model that only regards the length (the estimator is a dependency)", HASH],
    outside="user names that need quoting in LDIF or distinguished names, more than two lines")
C["C30"] = dict(
    note="Export of directories with symbolic values and names, loaded into a second database.",
    entries=[
        E("hdb.LargeExport", [{}], [{}], qs=60, ts=600, covers=["loaded"],
          bounds="few symbolic bytes in a large input: a directory of 14 entries, one with 6 attributes of up to 6 values and values of up to 301 bytes"),
        E("hdb.Export", [{"n": 1, "shapes": 2, "parents": 2}], [{"n": 2, "shapes": 3, "parents": 2}, {"n": 1}], qs=100, ts=900, covers=["loaded"],
          bounds="five directories plus an entry with one or two values of up to 1 (thorough 2) arbitrary bytes, alone or at the end of a long value around the folding width, and a name with any character or escape"),
    ],
    assumptions=[STORE, GOB, "files and standard output are an in-memory model"],
    outside="entries without any attribute (LDIF cannot express them), attribute names that are not valid in LDIF, longer values")
C["C04"] = dict(
    note="All bind requests with symbolic names and passwords against LDIF files with symbolic users.",
    entries=[
        E("hldif.LargeDirectory", [{"bind": 1}], [{"bind": 1}], qs=60, ts=600, covers=[],
          bounds="few symbolic bytes in a large input: an entry with 6 passwords in a directory of 8 entries"),
        E("hldif.Bind", [{"n": 3, "m": 3}], [{"n": 5, "m": 5}], qs=60, ts=900, covers=["accepted 0", "accepted 1", "accepted 2", "refused 0", "refused 1", "refused 2"],
          bounds="users in the main file, in the configuration or in both, without password, with one of every stored form or with several; symbolic stored and presented passwords of up to 3 (thorough 5) characters; names in any letter case"),
        E("hldif.Odd", [{"free": 3}], [{"free": 4}], qs=60, ts=900, covers=["anonymous", "refused"],
          bounds="names of up to 3 (thorough 4) characters, empty names and passwords, any client address, anonymous binds enabled or not"),
    ],
    assumptions=[LAPP, FILES, LOG, HASH],
    outside="longer and non-ASCII names, names spelled differently from the LDIF file otherwise than in letter case")
C["C14"] = dict(
    note="Search results for symbolic filters, bases and scopes over indexed and other attributes against an independent reading of filters and scopes.",
    entries=[
        E("hldif.LargeDirectory", [{}], [{}], qs=90, ts=600, covers=["match", "no match"],
          bounds="few symbolic bytes in a large input: a directory of 8 entries with 7 attributes of up to 6 values that share a value of 12 characters, one entry with 6 passwords; filters with up to 5 operands"),
        E("hldif.Filter", [{"depth": 0}, {"depth": 1, "types": 3, "case": 0, "vlen": 1, "leaves": 3, "parts": 3}, {"depth": 2, "leaves": 1, "case": 0, "types": 2, "vlen": 1}, {"long": 1, "types": 2, "case": 0}],
          [{"depth": 0, "values": 2}, {"depth": 1, "types": 3, "case": 0}, {"depth": 2, "leaves": 1, "case": 0, "types": 3, "vlen": 1}], qs=90, ts=1500, covers=["match", "no match"],
          bounds="three entries, one with a symbolic value in an attribute indexed for everything, for equality only, or not at all; filters of depth 0 (every kind of comparison and substring, attribute names in either case), 1 (equality, presence, one-part substrings) and 2 (equality; thorough: more attributes)"),
        E("hldif.Scope", [{"n": 4}], [{"n": 5}], qs=60, ts=900, covers=["match", "no match"],
          bounds="all trees of 4 (thorough 5) entries with symbolic one-letter names and an entry outside of the base; every base of up to three components, also with a longer or shorter attribute type, in any letter case; every scope; indexed and other filters"),
    ],
    assumptions=[LAPP, FILES, LOG, FOLD],
    outside="longer values, deeper filters, non-ASCII values, search bases spelled differently from the LDIF file otherwise than in letter case")
C["C15"] = dict(
    note="Complete paged searches with symbolic sets of matching entries, every page size and detours at any time.",
    entries=[
        E("hldif.LargePaging", [{}], [{}], qs=60, ts=600, covers=["finished"],
          bounds="few symbolic bytes in a large input: 8 or 9 entries in pages of 1 to 9, one entry matching or not"),
        E("hldif.Paging", [{"n": 3}, {"n": 4, "turns": 3}], [{"n": 5, "turns": 4}], qs=60, ts=900, covers=["abandoned", "another search", "finished", "several pages", "unknown cookie"],
          bounds="up to 4 (thorough 5) entries of which any subset matches; page sizes 1 to one more than the entries; with an unknown cookie, abandoning, another search or another connection before any of the first 3 (thorough 4) pages"),
        E("hldif.Paging", [{"n": 3, "idle": 1}], [{"n": 4, "idle": 1, "turns": 3}], qs=60, ts=900, covers=["forgotten"], confirm="engine", no_native_samples=True,
          bounds="the same with more than a minute of waiting before any page (the clock is virtual)"),
    ],
    assumptions=[LAPP, FILES, LOG],
    outside="more entries; a changed filter or base between pages; page size zero without cookie; concurrent use of a cookie")
C["C16"] = dict(
    note="Search results for symbolic filters and attribute lists naming the password in any letter case.",
    entries=[
        E("hldif.LargeDirectory", [{}], [{}], qs=90, ts=600, covers=["match", "no match"],
          bounds="few symbolic bytes in a large input: a directory of 8 entries with 7 attributes of up to 6 values that share a value of 12 characters, one entry with 6 passwords; filters with up to 5 operands"),E("hldif.Secrets", [{"depth": 0}, {"depth": 1, "leaves": 1}, {"depth": 0, "leaves": 1, "places": 1}], [{"depth": 1, "leaves": 2}, {"depth": 0, "places": 1}], qs=90, ts=900, covers=["match", "no match"],
               bounds="an entry with a symbolic password under a symbolic spelling of the attribute, a user in the configuration; filters of depth 0 and 1 over the password and another attribute; every way of requesting attributes; anonymous and bound clients; one or two stored passwords; other search bases (also the configuration user's name) and scopes with simple filters")],
    assumptions=[LAPP, FILES, LOG],
    outside="deeper filters, other attributes holding secrets")
C["C17"] = dict(
    note="Searches by clients with every identity and address class.",
    entries=[
        E("hbolt.Unauthenticated", [{"binds": 2}], [{"binds": 3}], qs=60, ts=900, covers=["entries", "refused"],
          bounds="database back-end: up to 2 (thorough 3) binds with any outcome, any client address class, any anonymous-access setting; symbolic base, scope and filter"),
        E("hldif.Above", [{}], [{}], covers=["entries", "refused"],
          bounds="binds as the base, above, beside and below it, where the base has two components"),
        E("hldif.Unauthenticated", [{"binds": 1}], [{"binds": 2}], qs=60, ts=900, covers=["entries", "refused"],
          bounds="LDIF back-end: 1 (thorough 2) binds as users inside and outside of the base, with and without configuration"),
    ],
    assumptions=[APP, LAPP, FILES, STORE, GOB, LOG],
    outside="longer sequences of binds")
C["C25"] = dict(
    note="Inclusion of files by symbolic path strings, compared with an independent resolution of the path, and of files with symbolic contents.",
    entries=[
        E("hldif.Include", [{"n": 6, "prefixes": 6}], [{"n": 8, "prefixes": 6}], qs=60, ts=900, covers=["included", "missing", "outside"],
          bounds="all paths of up to 6 (thorough 8) characters over a b . / alone, after the folder, after its parent, after ../ or after a prefix of 50 to 60 characters that leads nowhere; LDIF given as file or folder"),
        E("hldif.Content", [{"n": 5}, {"n": 4, "large": 1048576}], [{"n": 9}, {"n": 4, "large": 1048576}], qs=90, ts=900, steps=2000000000, covers=["complete"],
          bounds="files of up to 5 (thorough 9) arbitrary bytes, and of the maximum size less 3 to plus 1 bytes"),
    ],
    assumptions=[FILES, LOG],
    outside="longer paths, symbolic links inside of the folder (followed)")
C["C26"] = dict(
    note="Reloads of symbolic files, good or broken in several ways, compared with the contents before and after; also by signal, and under all interleavings with a search or bind up to a preemption bound.",
    entries=[
        E("hldif.LargeReload", [{}], [{}], qs=60, ts=600, covers=["reloaded"],
          bounds="few symbolic bytes in a large input: files of up to 8 entries with passwords replaced by files of up to 8 entries"),
        E("hldif.Reload", [{"reloads": 1}], [{"reloads": 1}], qs=60, ts=900, covers=["refused", "reloaded"],
          bounds="a reload of main file and configuration, each good, missing, unreadable as LDIF, with duplicate names, with a broken record or a failing template; symbolic values and passwords"),
        E("hldif.Hangup", [{"signals": 1}], [{"signals": 2}], qs=60, ts=900, covers=["broken", "good"], no_native_samples=True,
          bounds="a running server and 1 (thorough 2) hangup signals after changing the files to good or broken ones"),
        E("hldif.ReloadMeanwhile", [{}], [{}], qs=60, ts=900, sched=True, preempt=(1, 2), confirm="engine", covers=["new", "old", "new password"],
          bounds="a reload that succeeds or fails and one search or bind, up to 1 (thorough 2) preemptions, with detection of data races"),
    ],
    assumptions=[LAPP, FILES, LOG, "signals are delivered by a model of os/signal"],
    outside="main directory and configuration changing at the same instant (each is replaced as a whole), files changing while they are read")
C["C27"] = dict(
    note="Write requests of every kind by every identity, and the directory before and after.",
    entries=[E("hldif.ReadOnly", [{}], [{"writes": 2}], qs=60, ts=900, covers=["add", "delete", "modify", "rename", "password", "own password"],
               bounds="one (thorough two) writes with symbolic names and values by an anonymous client, a user and a user of the configuration, any of them the administrator or not, with and without configuration")],
    assumptions=[LAPP, FILES, LOG],
    outside="longer sequences")
C["C28"] = dict(
    note="LDIF files with symbolic records in different notations, compared with what is served.",
    entries=[
        E("hldif.LargeDirectory", [{}], [{}], qs=90, ts=600, covers=["match", "no match"],
          bounds="few symbolic bytes in a large input: a directory of 8 entries with 7 attributes of up to 6 values that share a value of 12 characters, one entry with 6 passwords; filters with up to 5 operands"),
        E("hldif.Load", [{"records": 1, "names": 0, "vlen": 1}, {"records": 1, "forms": 1, "attributes": 1, "head": 0}, {"records": 2, "attributes": 1, "forms": 1, "names": 0, "head": 0}, {"records": 2, "attributes": 1, "vlen": 1, "names": 0, "head": 0}],
          [{"records": 1, "names": 0}, {"records": 2, "attributes": 1, "vlen": 1, "names": 0, "head": 0}], qs=120, ts=1500, covers=["served"],
          bounds="one record with up to 2 attributes or two records with one; values of one or two characters written plainly, encoded (any bytes), folded anywhere, followed by a comment or folded comment, with other line ends; encoded names; version lines and remarks; one file or a folder"),
        E("hldif.Load", [{"records": 1, "long": 70000, "forms": 1, "attributes": 1, "names": 0, "head": 0}], [{"records": 1, "long": 140000, "forms": 1, "attributes": 1, "names": 0, "head": 0}], qs=60, ts=600, covers=["served"],
          bounds="a line of 70000 (thorough 140000) characters"),
    ],
    assumptions=[LAPP, FILES, LOG],
    outside="values by URL, change records, records of one name in different spellings other than letter case, template actions")

NET = "network, TLS, environment and signals modelled in memory: listeners, connections and certificates by their documented contract, a signal is lost when the channel it is for is full"
C["C31"] = dict(
    note="The password command with symbolic secrets given in every way, and every combination of sources.",
    entries=[
        E("hcmd.Passwd", [{"n": 2}], [{"n": 3}], qs=60, ts=900, covers=["hashed", "clear", "refused"],
          bounds="secrets of up to 2 (thorough 3) arbitrary bytes, alone or after a strong secret; given as option or file; every scheme, strength limit and newline setting"),
        E("hcmd.PasswdSources", [{}], [{}], qs=60, ts=600, covers=["refused", "generated", "entered"], confirm="engine", no_native_samples=True,
          bounds="every combination of option, readable or unreadable file, generation and prompt; generated secrets arbitrary"),
    ],
    assumptions=[HASH, FILES, LOG, "password strength replaced by a model (12 characters are strong, fewer are not); the prompt and the generator of secrets return an arbitrary secret"],
    outside="longer secrets, clear-text secrets that start with a scheme in braces")
C["C32"] = dict(
    note="A server with every combination of listeners, usable or not, until it ends by a signal; signals under all interleavings up to a preemption bound; failing accepts.",
    entries=[
        E("hlife.Life", [{}], [{}], qs=60, ts=600, covers=["ended", "not started"], confirm="engine", no_native_samples=True,
          bounds="both back-ends; plain and encrypted listener none, usable or with the address taken; certificate and key usable, missing or mixed up; up to two reloads; either terminating signal"),
        E("hlife.Signals", [{"hangups": 2, "request": 0}], [{"hangups": 3, "request": 0}], qs=60, ts=900, sched=True, preempt=(1, 2), covers=["ended"],
          bounds="up to 2 (thorough 3) reload signals directly followed by a terminating one, up to 1 (thorough 2) preemptions"),
        E("hlife.Signals", [{"hangups": 1}], [{"hangups": 2}], qs=60, ts=900, sched=True, preempt=(0, 0), covers=["ended"],
          bounds="the same with a client, one (thorough two) reload signals, all orders of events without preemptions"),
        E("hlife.Accepting", [{}], [{}], qs=60, ts=600, covers=["failed", "answered"], confirm="engine", no_native_samples=True,
          bounds="two connections with up to two failing accepts before, between and after them"),
    ],
    assumptions=[NET, STORE, GOB, FILES, LOG],
    outside="signals before the server is ready, connections open while the server ends, the HTTP listener of metrics")
C["C33"] = dict(
    note="The serve command with every option of the LDIF back-end given on the command line, by environment or both, and the server it starts.",
    entries=[
        E("hlife.Serve", [{}], [{}], qs=90, ts=900, covers=["anonymous", "not anonymous", "encrypted"], confirm="engine", no_native_samples=True,
          bounds="listeners, base (symbolic), files, certificate, template values and anonymous access, each by option, environment, or by option with another value in the environment"),
        E("hlife.Bound", [{}], [{}], qs=60, ts=600, covers=["database", "configuration"], confirm="engine", no_native_samples=True,
          bounds="administrator, database file and configuration file in the same ways; symbolic names and passwords"),
        E("hlife.Refusals", [{}], [{}], qs=60, ts=600, covers=["refused"], confirm="engine", no_native_samples=True,
          bounds="missing or unusable base, files, directory handler and certificate"),
    ],
    assumptions=[NET, STORE, GOB, FILES, LOG],
    outside="log levels, pprof, metrics listener")
C["C34"] = dict(
    note="LDIF files with template actions, served by the server: every attribute must have the value the actions before it determine.",
    entries=[
        E("hldif.Template", [{"files": 1, "actions": 2}, {"files": 2, "actions": 1}], [{"files": 1, "actions": 3}, {"files": 2, "actions": 2}], qs=90, ts=1500, covers=["served", "refused"],
          bounds="one file of 2 (thorough 3) actions and two files of 1 (thorough: 2 and 1) action each: values of all settings, changes of settings, numbering, encodings, inclusion of files, actions in comments, invalid actions; company and mail domain configured or not; symbolic values"),
    ],
    assumptions=[LAPP, FILES, LOG],
    outside="control structures and functions of text/template itself; more actions")
C["C35"] = dict(
    note="The load command on files of symbolic records and on an empty or filled database, then the database and the export command.",
    entries=[
        E("hcmd.LoadMany", [{}], [{}], qs=60, ts=600, covers=["loaded", "refused"],
          bounds="few symbolic bytes in a large input: files of 5 to 9 records in up to 6 levels, one record possibly wrong"),
        E("hcmd.Load", [{"records": 1}, {"records": 2}], [{"records": 2}, {"records": 3}], qs=60, ts=900, covers=["loaded", "refused"],
          bounds="files of up to 2 (thorough 3) records at, below, two levels below or outside of the base with symbolic names and values, with and without a malformed record at the end or the last line end missing; missing file; empty database or one with two entries"),
    ],
    assumptions=[STORE, GOB, FILES, LOG],
    outside="change records, larger files, storage that fails while loading (see C18)")

