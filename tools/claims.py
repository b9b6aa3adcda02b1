STORE_NOTE = "Every path of the operation (repo-internal calls inlined, loops generalised) is explored; sound up to the stated assumptions about libraries."
PATH_NOTE = "Every path of the analysed functions is explored on the SSA form (repo-internal calls inlined, loops generalised, no bound on rounds); sound up to the stated assumptions about libraries."
CLAIMED = {
 "C01": ("path-sensitive typestate analysis of optimistic operations (lock, read, comparison, change), argument provenance", STORE_NOTE),
 "C02": ("path-sensitive effect analysis of saves (undo obligations, transaction outcome, list completeness)", STORE_NOTE),
 "C04": ("path-sensitive dataflow analysis of numbers with linear offsets", STORE_NOTE),
 "C05": ("path-sensitive collection and comparison of index writes, removals and reads; clause check of statements", STORE_NOTE),
 "C11": ("two-pass path-sensitive lockset analysis over go/ssa, lock hand-off to goroutines, recursion, bounded waits, lock order", PATH_NOTE),
 "C12": ("path-sensitive ghost-state analysis over go/ssa: number of the next record due through both reads, the registration and the live loop; comparison of what the functions of each subscription's configuration select", PATH_NOTE),
 "C13": ("path-sensitive typestate analysis of announcements (commit, order, completeness), listener loop analysis", STORE_NOTE),
 "C27": ("path-sensitive typestate analysis of resources (obtained, released, handed over)", PATH_NOTE),
 "C03": ("path-sensitive typestate analysis of transactions on SSA", STORE_NOTE),
 "C06": ("path-sensitive dataflow analysis of the reads, clause check of the queries, argument provenance", PATH_NOTE),
 "C07": ("path-sensitive typestate analysis of iterator producers (error obligations)", PATH_NOTE),
 "C08": ("path-sensitive typestate analysis of iterator consumers (error obligations)", PATH_NOTE),
 "C09": ("path-sensitive typestate analysis of iterator producers (channel protocol)", PATH_NOTE),
 "C14": ("typestate analysis over go/ssa: broadcaster methods and goroutine explored with a state per subscriber; every wait must have a wake-up; ends of subscriptions and of those who wait for them", PATH_NOTE),
 "C15": ("path-sensitive typestate and dataflow analysis of encrypting layers", PATH_NOTE),
 "C16": ("path-sensitive dataflow analysis of nonces, linear reasoning about slice bounds", PATH_NOTE),
 "C17": ("path-sensitive dataflow analysis of key stores, clause check of conditional writes", PATH_NOTE),
 "C21": ("whole-program backward dataflow to statement texts, placeholder check", "Every statement text in the program is traced to its origins over all callers and all stores to the fields involved."),
 "C24": ("whole-program backward dataflow to response writes, type check of template conversions, template scan", "Every direct write to a response and every conversion to an unescaped template type is traced to its origins."),
 "C25": ("whole-program backward dataflow from reporting calls to credentials and keys", "Every place that reports a value is traced to its origins over all callers, fields and maps; the list of reporting calls and of names that mark credentials is given in the check."),
 "C20": ("type-based classification of JSON decodings, must-precede analysis of UseNumber, conversion and declaration lints", "Every decoding, conversion, number parsing and declaration in the packages that handle events is judged."),
 "C22": ("path-sensitive typestate analysis of HTTP handlers under every store outcome", PATH_NOTE),
 "C23": ("path-sensitive dataflow and typestate analysis of the command dispatcher", PATH_NOTE),
 "C26": ("path-sensitive typestate analysis of server programs (interrupt, parts, store), and of the goroutines that serve listeners", PATH_NOTE),
 "C18": ("path-sensitive field provenance over go/ssa: each field of a representation of a record, event or request that leaves the function it was put together in must be the same field of one source; lint of wire names; constructor and accessors paired", PATH_NOTE),
 "C19": ("path-sensitive symbolic propagation of error values and texts through server and client, per failure kind and operation", PATH_NOTE),
 "C28": ("path-sensitive dataflow with lock sections over the statistics projection, snapshot stores and the server that resumes", PATH_NOTE),
 "C29": ("path-sensitive symbolic exploration of page handlers with linear arithmetic over list lengths; taint of names into links", PATH_NOTE),
 "C30": ("path-sensitive typestate analysis of record stream writers with every call that can fail failing", PATH_NOTE),
 "C10": ("path-sensitive effect analysis under a cancelled context, context provenance", STORE_NOTE),
}
NA = {
 "N01": "Decided inside goleveldb, PostgreSQL and the file system at run time; the source only contains the commit call (C03 decides that it is made).",
 "N02": "The order in which other database sessions commit is not determined by any construct in this source.",
 "N03": "Quantifies over run-time values of user-defined types going through reflection-driven encoders; no sound static argument in reach.",
 "N04": "A probabilistic property of random numbers.",
 "N05": "Wall-clock behaviour under load.",
 "N06": "The generated program is the result of executing templates on arbitrary input; deciding it needs running the generator.",
}
