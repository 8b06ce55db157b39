# The properties, in the order of properties.jsonl. gen.py writes
# properties.jsonl and MANIFEST.json from this table.
#
# P(id, title, statement, over, text, why, files, mechanism, technique, note)

D = "internal/infra/delta/"
I = "internal/infra/index/"
R = "internal/infra/recdb/"
N = "internal/domain/"
H = "internal/helpers/"
S = "internal/api/shard/"

props = []


def P(id, title, statement, over, text, why, files, mech, technique, note):
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                      why=why, files=files, mech=mech, technique=technique, note=note))


P("C01", "Delta file format: what is written is read back, and corruption is noticed",
  "Whatever prefix, header and entries are written to a delta file are read back field for field by the reader, which consumes exactly the bytes that were written; the byte layout is the one existing version 1 files have. "
  "The reader of the prefix rejects a file whose first bytes differ from the magic number. "
  "The checksum stored with an entry changes whenever any single byte of its operation, user or item changes, and validation accepts an entry exactly when its stored checksum is the computed one.",
  ["inputs"], "every value of every field of the header and of an entry, and every content of the bytes read",
  "The tests write and read a handful of constant entries; the claim is about every 64-bit identifier and every operation.",
  [D + "protocol.go"],
  [("WritePrefix/ReadPrefix, WriteHeader/ReadHeader, WriteEntry/ReadEntry", D + "protocol.go"), ("CalcEntryChecksum, ValidateEntryChecksum", D + "protocol.go")],
  "abstract interpretation: symbolic byte images of writer and reader compared term by term",
  "Sound for all field values within the modelled standard library calls (bufio, encoding/binary, io). Collisions of changes of several bytes at once are outside the property.")

P("C02", "Index file format: what is written is read back",
  "Whatever prefix, header and entries are written to an index file are read back field for field by the reader, which consumes exactly the bytes that were written; the byte layout is the one existing version 1 files have. "
  "The reader of the prefix rejects a file whose first bytes differ from the magic number.",
  ["inputs"], "every value of every field of the header and of an entry, and every content of the bytes read",
  "The tests write and read a few constants; the claim is about all 64-bit keys and values.",
  [I + "protocol.go"],
  [("WritePrefix/ReadPrefix, WriteHeader/ReadHeader, WriteEntry/ReadEntry", I + "protocol.go")],
  "abstract interpretation: symbolic byte images of writer and reader compared term by term",
  "As C01.")

P("C03", "RECDB file format: profiles of any size are read back, within their capacity",
  "Whatever prefix, header and profile entries are written to a RECDB file are read back field for field by the reader, which consumes exactly the bytes that were written; the byte layout is the one existing version 1 files have. "
  "An entry occupies exactly its capacity in the file whatever its profile's size, an entry that doesn't fit in its capacity is refused before anything is written, and the suggested capacity is always enough. An entry whose data isn't a profile is refused too. "
  "A database that has just been created is an empty one: unlocked, of the type of its protocol, without entries. "
  "The reader of the prefix rejects a file whose first bytes differ from the magic number.",
  ["inputs"], "every header, every capacity and every profile with any number of likes and dislikes",
  "The tests use one or two profiles with a few items and one capacity.",
  [R + "protocol.go", R + "likeprotocol.go"],
  [("WriteEntry/ReadEntry, PredictEntryCapacity", R + "protocol.go"), ("WriteEntryData/ReadEntryData, PredictDataSize", R + "likeprotocol.go")],
  "abstract interpretation: symbolic byte images of writer and reader compared term by term",
  "As C01; a profile has fewer than 2^32 items in a list.")

P("C04", "Setting and testing the lock mark touches nothing else",
  "Setting or clearing the lock mark of a delta, index or RECDB file changes exactly the one byte of the header that holds it, to a non-zero value if the file is to be locked and to zero otherwise, and leaves the current position of the file where it was. "
  "Testing the mark writes nothing, leaves the position where it was and answers whether that byte is non-zero. "
  "Both report an error if the input or output fails, and only then.",
  ["inputs", "fault_sequences"], "every position and content of the file and every I/O failure",
  "The tests check the byte for one file content and one position; failures aren't injected.",
  [D + "protocol.go", I + "protocol.go", R + "protocol.go"],
  [("WriteLocked, IsLocked", D + "protocol.go"), ("WriteLocked, IsLocked", I + "protocol.go"), ("WriteLocked, IsLocked", R + "protocol.go")],
  "abstract interpretation of the I/O effects along every path",
  "Complete over paths; the offset of the mark is derived from the writer of the header.")

P("C05", "A delta file is marked locked from opening until it is closed completely",
  "Opening a delta file succeeds only if it is empty or not marked locked, and leaves the mark set; a file that is marked locked is refused and not modified. "
  "While the storage is open the mark is never cleared; closing clears it only after everything else has been written and flushed successfully, and writes nothing after that. "
  "Recovering a file never clears the mark before all of its new content is written and the file is cut to its new size.",
  ["crash_points", "fault_sequences", "histories"], "every point at which the process may die or an I/O operation may fail, in every history of operations on the file",
  "The tests only look at the mark after a successful open, and never at intermediate states or failures.",
  [D + "storage.go", D + "storagefactory.go"],
  [("Open, Recover, OpenMaybeRecover", D + "storagefactory.go"), ("Flush, Close", D + "storage.go")],
  "typestate analysis of the lock byte over the I/O events of every path",
  "Writes reach the file in program order; power failures that reorder writes in the operating system's cache are outside.")

P("C06", "An index file is marked locked from opening until it is closed completely",
  "Opening an index file succeeds only if it is empty or not marked locked, and leaves the mark set; a file that is marked locked is refused as corrupted and not modified. "
  "Closing clears the mark only after everything else has been written and flushed successfully, and writes nothing after that. "
  "Iterating over a RECDB file that is marked locked is refused as corrupted, and never writes.",
  ["crash_points", "fault_sequences", "histories"], "every point at which the process may die or an I/O operation may fail, in every history of operations on the file",
  "The tests only look at the mark after a successful open and close.",
  [I + "storage.go", I + "storagefactory.go", R + "iterator.go"],
  [("load, create, Close", I + "storage.go"), ("NewIterator", R + "iterator.go")],
  "typestate analysis of the lock byte over the I/O events of every path",
  "As C05.")

P("C07", "Success is reported only after buffered data has been handed to the file",
  "When creating, flushing, closing or recovering a delta, index or RECDB file succeeds, everything that was written on the way has left the process's buffers; no data stays in a buffer that is dropped. "
  "Nothing is read from or written to the file behind the back of a buffer that still holds data read ahead for, or written before, the same place.",
  ["inputs", "histories"], "every operation that writes files, on every path to success",
  "A lost buffer only shows for particular sizes: the tests write a few bytes.",
  [D + "storage.go", I + "storage.go", R + "protocol.go", R + "iterator.go"],
  [("flushHeader, flushEntries", D + "storage.go"), ("saveHeader, saveEntries, create", I + "storage.go"), ("Create", R + "protocol.go"), ("SetPrevious, Rewind", R + "iterator.go")],
  "typestate analysis of buffered readers and writers along every path", "Complete over paths.")

P("C08", "No I/O failure is swallowed by an operation that reports success",
  "If reading, writing, seeking, truncating, flushing or renaming fails during an operation on a storage file or on the saved list of namespaces, the operation reports an error. "
  "The only exceptions are the end of the file found while recovering a damaged delta file, where recovery keeps what it could read, a damaged index file that is replaced when its namespace starts (C30), and failures to close a file while another failure is already reported.",
  ["fault_sequences"], "every single I/O operation failing, on every path of every operation",
  "The tests inject almost no I/O failures.",
  [D + "protocol.go", D + "storage.go", D + "storagefactory.go", I + "protocol.go", I + "storage.go", I + "storagefactory.go", R + "protocol.go", R + "likeprotocol.go", R + "iterator.go", N + "namespaceservice.go"],
  [("error returns of every I/O call", D + "protocol.go")],
  "path-sensitive error-flow analysis of every I/O call", "Complete over paths; the contract of io.Reader and io.Writer is assumed.")

P("C09", "Recovering a damaged delta file keeps exactly its intact entries",
  "Recovery of a delta file produces a well-formed unlocked file whose header counts exactly the entries that follow it and that ends right after the last of them. "
  "The entries kept are those read from the damaged file whose checksum is valid and whose operation is known, unchanged and in their original order; the others are left out, and reading stops only at the end of the file or at the first failure to read. "
  "A failure to read other than a premature end of the file, or any failure to write, fails the recovery, and nothing else does: a file is recovered whatever it contains.",
  ["inputs", "crash_points", "fault_sequences"], "every content and length of the damaged file",
  "The tests recover two or three fixed byte strings.",
  [D + "protocol.go", D + "storagefactory.go"],
  [("RecoverTo", D + "protocol.go"), ("Recover", D + "storagefactory.go")],
  "abstract interpretation with loop invariants relating the entry counter, the header and the bytes written", "Entries are recognised by position; the contract of the in-memory file used as a scratch is checked separately.")

P("C10", "Flushing a delta storage writes every pending change once, and can be retried",
  "A successful flush writes every pending operation exactly once, right after the entries that are already in the file, with its user, item, operation and a valid checksum, makes the header count them, and leaves them remembered as stored and nothing pending. "
  "If flushing fails nothing is forgotten: the pending operations and the counts are left as they were, so that a later flush or close writes them all again over the same place.",
  ["inputs", "histories", "fault_sequences"], "every set of pending operations and every I/O failure",
  "The tests flush one or two operations once, without failures.",
  [D + "storage.go"],
  [("Flush, flushHeader, flushEntries, Add", D + "storage.go")],
  "abstract interpretation of loops over the pending map; inductive class invariant of the item counts", "Complete over paths.")

P("C11", "A delta storage remembers every stored and added operation, the last one wins",
  "Opening a delta file loads exactly the number of entries its header counts, each with its user, item and operation, in order. "
  "Adding an operation for a user and an item makes it the one that looking that pair up returns, and doesn't affect other pairs; looking up finds the last operation added for the pair, pending ones taking precedence over stored ones. "
  "The reported item count grows by one exactly if the operation didn't replace a pending one of the same pair, the reported file size is the size those items need and the reported user count counts each user once.",
  ["inputs", "histories"], "every file content and every history of additions and look-ups",
  "The tests use at most three operations.",
  [D + "storage.go", D + "storagefactory.go"],
  [("Add, Get, GetUserCount, GetTotalItemCount, GetFileSize", D + "storage.go"), ("Open", D + "storagefactory.go")],
  "abstract interpretation of map and loop effects", "Complete over paths.")

P("C12", "An index behaves like a map that survives closing",
  "Closing an index writes each association that it holds exactly once, with a header that counts them, and opening it loads each association of the file. "
  "Putting associates the key with the value and looking up returns the last value put unless it was removed since; putting and removing one key doesn't affect others, and removing an absent key succeeds.",
  ["inputs", "histories"], "every set of associations and every history of puts and removals",
  "The tests use one or two keys, and can't fix the order of iteration over a map.",
  [I + "storage.go", I + "storagefactory.go"],
  [("Get, Put, Remove, saveHeader, saveEntries, load", I + "storage.go")],
  "abstract interpretation of map and loop effects", "Complete over paths.")

P("C13", "The RECDB iterator visits every entry and rewrites exactly the previous one",
  "The iterator reports a next entry exactly while fewer entries than the header counts have been visited since it was created or rewound, and refuses to go past the last one. "
  "Rewriting the previous entry replaces exactly the bytes of the entry returned last, refuses a different capacity and a call before the first entry, and the iteration goes on with the entry after it. "
  "An operation that fails leaves what the iterator remembers as it was; after a failure the iteration is only resumed by rewinding. "
  "Entries returned earlier aren't changed by the iteration going on.",
  ["histories", "inputs"], "every file and every sequence of rewinding, advancing and rewriting",
  "The tests run one fixed sequence over two or three entries.",
  [R + "iterator.go"],
  [("NewIterator, Rewind, HasNext, Next, SetPrevious", R + "iterator.go")],
  "abstract interpretation: inductive invariant of the iterator's offset", "The buffered reader is modelled by its logical position.")

P("C14", "Malformed storage files never crash the process or exhaust its memory",
  "Reading a delta, index or RECDB file never panics, whatever its content, and never allocates memory out of proportion to what the file declares or holds: an item count is checked against the capacity of its entry before memory for the items is allocated. "
  "An entry whose data doesn't fit in the capacity it declares is refused.",
  ["inputs"], "every content of every storage file",
  "The tests contain almost no malformed files; a panic needs particular field values.",
  [D + "protocol.go", I + "protocol.go", R + "protocol.go", R + "likeprotocol.go"],
  [("ReadEntryData, checkItemCount", R + "likeprotocol.go"), ("ReadEntry", R + "protocol.go")],
  "taint and bounds analysis of allocations, indices and conversions on every path of the readers", "Complete over paths; a capacity read from the file bounds allocations (up to 4 GiB).")

P("C15", "Every request to a running namespace gets exactly one answer, its own",
  "Each operation of a namespace submits one action that carries the operation's own kind and arguments, and returns the answer the worker gives to that very action, or an error once the namespace has stopped. "
  "The worker hands each queued action to the storage exactly once and in order; for each action the storage sends exactly one response, to the channel its kind prescribes, with room for it so that the worker never blocks on a client. "
  "When processing fails, every action that hasn't been answered is answered with the error.",
  ["schedules", "inputs"], "every kind of action, every interleaving of clients and the worker",
  "No test runs a namespace.",
  [N + "likenamespace.go", R + "likestorage.go", N + "actions.go"],
  [("perform, enqueue, Like, Dislike, GetProfile, ...", N + "likenamespace.go"), ("ProcessActions", R + "likestorage.go")],
  "effect analysis of channel operations per action kind, on every path", "The contents of the answers aren't specified (the storage is a stub).")

P("C16", "A namespace stops cleanly and never leaves its clients waiting",
  "Stopping a namespace, repeatedly or concurrently, never panics, makes its worker return and makes every pending and later request return an error instead of waiting for ever. "
  "A worker that has been started goes on until its namespace is stopped or its context is cancelled, which is the one that the registry has been started with. When the worker returns, for whichever reason, it closes each of its storages exactly once, the like storage before the storages it uses, and then releases the clients; when starting fails, everything opened so far is closed and no worker is left.",
  ["schedules", "fault_sequences"], "every interleaving of requests with stopping, every failure during starting",
  "No test starts or stops a namespace.",
  [N + "likenamespace.go"],
  [("Start, Stop, closeQuit, enqueue, perform", N + "likenamespace.go")],
  "typestate of channels and deferred calls; blocking-operation analysis", "Complete over paths; a request being processed by the storage isn't interrupted.")

P("C17", "State shared between requests is only accessed under its mutex",
  "The list of namespaces, and the settings of a namespace that can be changed after its creation, are read only with their mutex held and written only with it held exclusively. "
  "No reference to the list itself escapes to callers that don't hold the mutex.",
  ["schedules"], "every interleaving of requests and workers",
  "The tests are single-threaded; a data race needs a particular interleaving.",
  [N + "namespaceservice.go", N + "likenamespace.go"],
  [("NamespaceService.mutex", N + "namespaceservice.go"), ("likeNamespace.mutex", N + "likenamespace.go")],
  "lockset analysis of every access to every field, interprocedural", "Initialisation before the object is published is exempt.")

P("C18", "No mutable state is shared behind the callers' backs",
  "No function reachable from the program changes a package-level variable after initialisation, neither by assignment nor by handing out or writing through a reference to it. "
  "The objects that all requests share without a mutex (endpoints, storage factories, file formats, the configuration) aren't changed after they have been made.",
  ["schedules", "histories"], "every function of the program",
  "Interference through a global needs two concurrent users at the right moment; tests are sequential.",
  [H + "io.go", R + "protocol.go", D + "protocol.go", I + "protocol.go"],
  [("package variables zeros, prefix, version tables", H + "io.go")],
  "escape and effect analysis of every reference to a package-level variable", "Complete for the module's own packages; library globals are outside.")

P("C19", "Locks are always released, never taken twice, and not held across waiting",
  "Every mutex that a function takes is released on every way out of it, including panics in calls it makes through deferred release or absence of such calls, and is never taken again by the goroutine that holds it. "
  "Mutexes are always taken in the same order, and no operation waits for another goroutine on a channel that may never be ready while holding one.",
  ["schedules"], "every path of every function that takes a mutex",
  "Deadlocks need particular paths and interleavings; the tests never use locks concurrently.",
  [N + "namespaceservice.go", N + "likenamespace.go"],
  [("mutexes of NamespaceService and likeNamespace", N + "namespaceservice.go")],
  "lock balance, lock order and blocking-while-locked analysis", "Calls through interfaces are resolved to their implementations in the module.")

P("C20", "Names of registered namespaces are unique",
  "Creating a namespace with a name that is taken, and renaming one to the name of another, fail and change nothing; so no two registered namespaces ever have the same name. "
  "The check and the change happen in one critical section, so this holds for concurrent requests as well.",
  ["schedules", "inputs", "histories"], "every history and interleaving of creations, renames and deletions",
  "There are no tests of the registry, and sequential tests couldn't show the race.",
  [N + "namespaceservice.go"],
  [("CreateNamespace, UpdateNamespace, getNamespaceIndexByName", N + "namespaceservice.go")],
  "must-precede analysis within one critical section, with a summary of the search loop", "Names change only through the registry.")

P("C21", "Names are safe as file names, and files of namespaces never clash",
  "A namespace name that is accepted starts with a letter and contains nothing but ASCII letters, digits, '-' and '_', so that it never leads outside the data directory. "
  "Every file that a namespace opens is named by the data directory, the namespace's name and an extension, a different one for each kind of file, none of which equals the file of the registry.",
  ["inputs", "configurations"], "every string offered as a name",
  "There are no tests of names; the claim is about every string.",
  [N + "valueobjects/namespacename.go", N + "likenamespace.go", N + "namespaceservice.go"],
  [("ParseNamespaceName", N + "valueobjects/namespacename.go"), ("openMaybe...Storage", N + "likenamespace.go")],
  "language inclusion on the compiled regular expression; who-may-construct; constant path analysis", "Complete; existing symbolic links in the data directory are outside.")

P("C22", "A change of the registry is saved before it succeeds, and undone if it can't be",
  "Creating, updating or deleting a namespace succeeds only after the changed list has been saved, and if saving fails the registry is left as it was before: same namespaces, same name and settings. "
  "Saving never leaves a partly written list behind: it is written to another file that replaces the old one only after it has been written successfully. "
  "Deleting removes exactly the named namespace, stops it if and only if the deletion is saved, and fails for an unknown name.",
  ["fault_sequences", "histories", "crash_points"], "every failure to save, at every change of the registry",
  "There are no tests of the registry and no fault injection.",
  [N + "namespaceservice.go"],
  [("CreateNamespace, UpdateNamespace, DeleteNamespace, saveNamespaces", N + "namespaceservice.go")],
  "path-sensitive effect analysis: rollback states compared with initial states", "Order of the list isn't part of its state. What the saved file contains is C37.")

P("C23", "Settings given for a namespace are the ones it reports and uses",
  "A namespace created with a name, a limit of similar profiles, a dislike factor, a directory and storage factories has exactly those; a limit of zero stands for the default limit. "
  "Updating sets the name, the limit and the dislike factor of the named namespace, and of no other, to the requested values; each getter reports what the corresponding setter was given last.",
  ["inputs"], "every value of every setting",
  "No test creates a namespace.",
  [N + "likenamespace.go", N + "namespaceservice.go", S + "dto/namespacecreaterequest.go", S + "dto/namespaceupdaterequest.go", S + "dto/namespaceresponse.go"],
  [("NewLikeNamespace, setters and getters", N + "likenamespace.go"), ("forgeNamespace, UpdateNamespace", N + "namespaceservice.go"), ("ToDomain, NewNamespaceResponse", S + "dto/namespaceresponse.go")],
  "dataflow of each setting from request to state and back, compared as terms", "Complete over paths.")

P("C24", "Every HTTP request gets exactly one response that tells the outcome",
  "Each handler writes exactly one response on every path. "
  "A success status is sent only if the operation succeeded, invalid requests get 400, absent namespaces 404, and a failure is never reported as a success; a request that is refused doesn't change the registry.",
  ["inputs", "fault_sequences"], "every request and every outcome of the operations it makes",
  "There are no tests of the handlers.",
  [S + "endpoints/namespaceendpoint.go", S + "endpoints/helpers.go"],
  [("Create, Get, List, Update", S + "endpoints/namespaceendpoint.go"), ("AbortWithBindingErrors, AbortWithValidationError", S + "endpoints/helpers.go")],
  "path-sensitive effect analysis of the handlers", "The behaviour of gin itself is assumed.")

P("C25", "Invalid HTTP requests are rejected before they reach the registry",
  "A request to create or update a namespace whose name isn't a valid namespace name, whose type isn't known, whose dislike factor is missing or outside 0..1, or whose limit is negative, never reaches the registry. "
  "A dislike factor of 0, an omitted limit and every other limit that the registry can hold are accepted, and no request, however malformed, makes a handler dereference a missing value.",
  ["inputs"], "every request body and path",
  "There are no tests of the handlers.",
  [S + "dto/namespacecreaterequest.go", S + "dto/namespaceupdaterequest.go", S + "endpoints/namespaceendpoint.go"],
  [("binding tags", S + "dto/namespacecreaterequest.go"), ("ToDomain", S + "dto/namespaceupdaterequest.go")],
  "type-level analysis of binding tags plus must-precede analysis of parsing and binding", "The meaning of the binding tags is that of the validator library.")

P("C26", "Every documented route is served by the operation it stands for",
  "Listing, creating, reading and updating namespaces are each served at their documented method and path, by the handler that performs that operation, and no two routes conflict. "
  "The path parameter that a handler reads is the one its route declares, and requests are read, and responses written, with the documented fields.",
  ["inputs", "configurations"], "every route",
  "There are no tests of the routes.",
  [S + "endpoints/namespaceendpoint.go", "docs/docs.go"],
  [("RegisterRoutes", S + "endpoints/namespaceendpoint.go")],
  "constant analysis of the route table against the handlers' call graphs and parameters", "Complete.")

P("C27", "The server stops in bounded time and reports why",
  "Running the application returns when listening fails, with that error, and after a termination signal, when the server is shut down gracefully within a limited time; a failure or a timeout of the shutdown is reported as an error. "
  "The goroutine that listens always terminates and is never blocked reporting its result.",
  ["schedules", "fault_sequences"], "every order of failure, signal and timeout",
  "There is no test that runs the application.",
  [S + "application.go"],
  [("Run", S + "application.go")],
  "channel capacity and select-case analysis on every path", "The behaviour of net/http is assumed.")

P("C28", "An item is never both liked and disliked, and opinions follow the last operation",
  "After liking an item the profile reports it liked and not disliked, and the other way round for disliking; removing it leaves it in neither list. "
  "Opinions on other items and the profile of other users aren't affected by any of these operations.",
  ["inputs", "histories"], "every profile and every history of operations on it",
  "The tests use lists of at most five items.",
  [N + "profile.go"],
  [("Like, Dislike, Unlike, Undislike, RemoveItem, QualifyItem", N + "profile.go")],
  "abstract interpretation over set-valued list contents, with the list helpers' contracts (C31) assumed", "Lists are kept sorted by these operations, which is what the look-up needs.")

P("C29", "Similarity of profiles is always a number between 0 and 100",
  "Comparing two profiles never divides zero by zero and never divides by zero, so that the similarity is a number from 0 to 100 for all profiles and every dislike factor from 0 to 1, empty profiles included; profiles with nothing in common get 0 and equal profiles get 100, unless nothing in them counts. "
  "With the factor 0 dislikes don't count: the similarity is the share of the common ones among all the likes. It doesn't matter which of the two is compared with the other. "
  "Comparing doesn't change either profile.",
  ["inputs"], "all profiles and dislike factors",
  "The tests use a few small profiles and factors.",
  [N + "profile.go"],
  [("ComputeSimilarity, computeSimilarityBetweenSets", N + "profile.go")],
  "interval and guard analysis of divisions on every path", "Rounding of floating point numbers is ignored; lists hold no duplicates.")

P("C30", "A damaged index is recognised as such and rebuilt rather than failing the start",
  "An index file that is locked or ends prematurely is reported as corrupted, recognisable as such through all wrapping, and starting a namespace then replaces it by an empty index; any other failure to open it fails the start and leaves the file as it is. "
  "A delta file that is locked or too short to have a header is recovered when the namespace starts, and a well-formed one isn't touched by recovery.",
  ["inputs", "fault_sequences", "crash_points"], "every content of the index and delta files",
  "The tests don't start namespaces.",
  [I + "storage.go", I + "storagefactory.go", N + "errors.go", N + "likenamespace.go", D + "storagefactory.go"],
  [("asCorrupted", I + "storage.go"), ("CorruptedFileError.Is", N + "errors.go"), ("openMaybeResetIndexStorage", N + "likenamespace.go"), ("needsRecovery, OpenMaybeRecover", D + "storagefactory.go")],
  "error identity analysis (wrapping verbs, Is methods) and path conditions of truncation and recovery", "Complete over paths.")

P("C31", "List and I/O helpers do what their callers rely on",
  "Writing zeros writes exactly the requested number of zero bytes, skipping consumes exactly the requested number of bytes or fails, both in bounded chunks and for every size. "
  "Searching a list never indexes outside it and returns either -1 or a position holding the element sought; removing and inserting change the length by exactly one, keep the other elements, and inserting puts the value at the position found for it.",
  ["inputs"], "every size, list and value",
  "The tests use lists of at most six elements and don't test the I/O helpers.",
  [H + "io.go", H + "arrays.go"],
  [("WriteZeros, SkipReading", H + "io.go"), ("IndexOf, BinaryIndexOf, BinaryIndexOfClosest, Insert, Remove, RemoveSavingOrder, PutSavingOrder", H + "arrays.go")],
  "abstract interpretation with linear inequalities as loop invariants; bounds, termination and contents analysis", "That binary search finds every element of a sorted list is C39. How close the element found by BinaryIndexOfClosest is isn't decided. That skipping ends requires a reader that doesn't return zero bytes without an error for ever.")

P("C39", "Searching a sorted list finds what it has, and inserting keeps it sorted",
  "Searching a list returns a position of the element whenever the list contains it and -1 otherwise, the binary search under the condition that the list is sorted. "
  "Inserting an element with InsertSavingOrder or PutSavingOrder keeps a sorted list sorted, next to equal elements and at both ends too, and PutSavingOrder inserts it exactly if the list doesn't contain it.",
  ["inputs"], "every sorted list and value",
  "The tests sample a few short lists.",
  [H + "arrays.go"],
  [("IndexOf, BinaryIndexOf, InsertSavingOrder, PutSavingOrder", H + "arrays.go")],
  "abstract interpretation with linear inequalities between positions and the two numbers that describe where the value belongs in the sorted list as loop invariants",
  "Values are totally ordered: there's no NaN. BinaryIndexOfClosest isn't covered, as closeness is a matter of arithmetic that may overflow.")

P("C32", "The in-memory file behaves like a file",
  "Reading, writing, seeking and truncating an in-memory file transfer exactly the bytes at the current position and move it accordingly, for every position and length; reading at the end reports the end of the file, and every operation on a closed file fails. "
  "No operation panics; a seek outside the file and truncating to a negative size are refused and change nothing. Truncating fills a file that grows with zeros and keeps the position unless it would be outside.",
  ["inputs", "histories"], "every content, position, offset and length",
  "The in-memory file has no tests of its own, though most tests of the storages rely on it.",
  [H + "file_buffer.go"],
  [("Read, Write, Seek, Truncate, Close", H + "file_buffer.go")],
  "abstract interpretation of sequences of operations, with linear inequalities between positions and sizes", "Complete over paths. Positions and sizes don't overflow.")

P("C33", "Configuration falls back to defaults exactly when a variable is unusable",
  "The host is the one in the environment (REC_HOST) unless it is empty, and the port is the one in the environment (REC_PORT) unless it is absent, not a number or negative; the fallbacks are the given defaults, or the built-in ones if none are given. "
  "The address listened on is the host and port joined by a colon, and the data directory (REC_PATH) always ends with a separator unless it is empty.",
  ["configurations"], "every environment",
  "There are no tests of the configuration.",
  [S + "config.go", S + "application.go", N + "namespaceservice.go"],
  [("NewConfigFromEnv, GetHostPort", S + "config.go"), ("NewNamespaceService", N + "namespaceservice.go")],
  "path-sensitive dataflow from the environment to the configuration", "Complete over paths.")

P("C34", "Opening existing data never destroys it",
  "Opening a storage file for use never truncates or overwrites entries of a file that is intact: no existing file is opened in a mode that empties it, except an index that has been recognised as corrupted, and opening, loading and iterating write nothing but the lock mark to a file that isn't empty, unless recovery is needed. "
  "The files of storages are opened for reading and writing and created if absent, so that the operations that follow can succeed.",
  ["inputs", "histories"], "every file and every way of opening it",
  "The tests open one or two files.",
  [N + "likenamespace.go", I + "storagefactory.go", D + "storagefactory.go", R + "protocol.go"],
  [("os.OpenFile flags", N + "likenamespace.go"), ("Open", D + "storagefactory.go"), ("load", I + "storage.go"), ("OpenOrCreateFile", R + "protocol.go")],
  "constant analysis of open flags with path conditions; effect analysis of the openers", "Complete over paths.")

P("C35", "Files opened on behalf of an operation that fails are closed",
  "Whenever an operation that opens a file fails, the file is closed before the failure is reported; whenever it succeeds, the file is owned by the object returned and is open. A storage factory that is given a file and fails to open it as a storage closes it: the index's in any case, the delta's after recovering the file if need be. "
  "Closing a storage closes its file on every path, successful or not.",
  ["fault_sequences"], "every failure after a file has been opened",
  "File descriptors leak silently; the tests don't inject failures.",
  [N + "likenamespace.go", D + "storagefactory.go", D + "storage.go", I + "storagefactory.go", I + "storage.go", R + "protocol.go"],
  [("close calls on error paths", N + "likenamespace.go"), ("Close", D + "storage.go"), ("Close", I + "storage.go"), ("OpenOrCreateFile", R + "protocol.go")],
  "resource typestate on every path", "Complete over paths; closing twice is allowed.")

P("C36", "The service starts its parts in the right order and fails loudly",
  "Starting the program loads the configuration and the namespaces before any request can be served, starts every loaded namespace, and hands the registry it loaded, and no other, to the server. "
  "A failure of any step except reading the list of namespaces, which may not exist yet, ends the program with an error instead of serving requests.",
  ["configurations", "fault_sequences"], "every failure during starting",
  "There is no test of the start.",
  ["main.go", N + "namespaceservice.go"],
  [("main, runShard", "main.go"), ("Start, LoadNamespaces", N + "namespaceservice.go")],
  "must-precede analysis of the start sequence on every path of main, inlined as a whole", "Complete over paths.")

P("C37", "Registered namespaces survive a restart",
  "The list of namespaces that is saved contains the name, the type and the settings of each namespace, and loading a saved list restores namespaces with those names, types and settings.",
  ["histories"], "every list of namespaces",
  "There are no tests of the registry.",
  [N + "namespaceservice.go", N + "likenamespace.go"],
  [("saveNamespaces, LoadNamespaces", N + "namespaceservice.go")],
  "type-level analysis of what encoding/json can encode and decode", "Decides encodability and decodability of the types involved.")

P("C42", "A refused request is told what's wrong with it",
  "The response to a request that fails carries the reason: the text of the error that made it fail, or a list with exactly one entry for each field refused, naming that field and telling why. "
  "That holds for requests that can't be bound, for values that the domain doesn't accept, and for operations that fail. No refusal comes without an explanation.",
  ["inputs", "fault_sequences"], "every request, and every combination of fields refused",
  "There are no tests of the HTTP interface; combinations of invalid fields and errors of the registry can't be enumerated.",
  [S + "endpoints/helpers.go", S + "endpoints/namespaceendpoint.go", S + "dto/validationerror.go", S + "dto/namespacecreaterequest.go", S + "dto/namespaceupdaterequest.go", S + "dto/error.go"],
  [("AbortWithBindingErrors, AbortWithValidationError, getFieldErrorMsg", S + "endpoints/helpers.go"), ("ValidationError", S + "dto/validationerror.go"), ("ToDomain", S + "dto/namespacecreaterequest.go")],
  "dataflow from the errors to the bodies of the responses on every path of the functions that serve routes", "Complete over paths. The wording of the explanations isn't judged, only that there is one.")

P("C43", "No request or setting crashes the service",
  "Whatever a request, an action of a client or a setting of the environment contains, and in whatever state the service is, handling it doesn't make the process panic: "
  "no index, slice or capacity out of range, no division by zero, no missing value dereferenced, no failed conversion of an interface and no explicit panic, in the handlers of the routes, the registry, the namespaces, their workers and the start of the program. "
  "(The contents of storage files are the subject of C14, the opinions in profiles of C28.)",
  ["inputs", "schedules"], "every request, setting and state of the registry and of the queues",
  "A panic in a worker kills the process, and needs particular lengths of lists and queues (an empty queue, an empty setting) that tests needn't meet.",
  [N + "likenamespace.go", N + "namespaceservice.go", S + "endpoints/namespaceendpoint.go", S + "endpoints/helpers.go", S + "application.go", S + "config.go", "main.go"],
  [("Start", N + "likenamespace.go"), ("NewNamespaceService, DeleteNamespace", N + "namespaceservice.go"), ("AbortWithBindingErrors", S + "endpoints/helpers.go")],
  "abstract interpretation with linear bounds of every operation, handler and goroutine; every access must be proved in range on every path", "Complete over paths of the code of the module; panics inside libraries aren't followed. Channels closed twice are the subject of C16.")

P("C44", "What is registered is found, and nothing is refused without a cause",
  "Looking a namespace up by its name returns the namespace registered by that name, and nothing only if there is none; listing returns exactly the namespaces registered. "
  "An operation on the registry fails, and a request is refused, only if there is a cause: the request or a value in it is invalid, the namespace is absent, the new name belongs to another namespace (keeping its own name isn't a clash), or saving has failed.",
  ["inputs", "histories"], "every registry, name and request",
  "There are no tests of the registry or the HTTP interface; whether a namespace is found depends on its position in the list and on all the other names.",
  [N + "namespaceservice.go", S + "endpoints/namespaceendpoint.go", S + "dto/namespacecreaterequest.go", S + "dto/namespaceupdaterequest.go"],
  [("GetNamespaceByName, GetNamespaces, CreateNamespace, UpdateNamespace, DeleteNamespace", N + "namespaceservice.go"), ("Get, Update, Create", S + "endpoints/namespaceendpoint.go")],
  "path-sensitive dataflow with summaries of the searches of the list; each failing path needs a cause among its facts", "Complete over paths and lists of any length. Which names are valid is the subject of C21.")

P("C45", "Every operation comes to an end",
  "No operation of the engine goes on forever: searching, inserting, copying, reading, recovering, saving and answering all end, whatever their arguments and the contents of the files and lists they work on (files are finite, and a stream that hasn't ended gives something when it is asked). "
  "The only loop without an end of its own, that of the worker of a namespace, waits in every round for something that includes the signal to stop.",
  ["inputs", "histories", "fault_sequences"], "every argument, list, file content and failure of I/O",
  "A search that doesn't end needs lists of a particular length and order; a loop that retries needs a failure at a particular point. Tests that don't meet them end.",
  [H + "arrays.go", H + "io.go", H + "file_buffer.go", D + "protocol.go", D + "storage.go", D + "storagefactory.go", I + "storage.go", N + "likenamespace.go", N + "namespaceservice.go", N + "profile.go"],
  [("BinaryIndexOf, BinaryIndexOfClosest, lowerBound", H + "arrays.go"), ("SkipReading, WriteZeros", H + "io.go"), ("RecoverTo", D + "protocol.go"), ("load", I + "storage.go"), ("Start", N + "likenamespace.go")],
  "ranking functions of loops, found with linear invariants of their abstract iterations", "Complete over loops and paths. How long an operation takes isn't bounded, and waiting for locks and channels is the subject of C16 and C19.")

P("C46", "A storage operation fails only for a cause",
  "Creating, opening, loading, recovering, flushing, closing and iterating over a storage file, and changing what it holds, fails only if an operation of the file has failed or ended prematurely, or the file isn't what it has to be: it doesn't begin with the magic number or is marked locked. "
  "Whatever number of entries an intact file has and whatever users, items and operations they are about, duplicates included, it's opened. Adding, putting and removing never fail. "
  "The iterator refuses to go on only after the last entry, and to rewrite an entry only before the first one or with another capacity.",
  ["inputs", "histories", "fault_sequences"], "every content of an intact file and every storage",
  "Refusing a file needs contents that tests don't have: many entries, duplicates, extreme identifiers; the data are then out of reach although they're intact.",
  [D + "storage.go", D + "storagefactory.go", D + "protocol.go", I + "storage.go", I + "storagefactory.go", I + "protocol.go", R + "iterator.go", R + "protocol.go", N + "likenamespace.go"],
  [("Open, OpenMaybeRecover, Recover", D + "storagefactory.go"), ("Flush, Close", D + "storage.go"), ("Open, OpenFile", I + "storagefactory.go"), ("Put, Remove, Close", I + "storage.go"), ("NewIterator, Next, SetPrevious, Rewind", R + "iterator.go"), ("Start", N + "likenamespace.go")],
  "path-sensitive dataflow: each failing path needs a failed operation of the file or a cause among its facts", "Complete over paths and file contents. Whether an entry of a RECDB file is refused without a cause is the subject of C03, whether the registry refuses something of C44.")

# Considered and not applicable
N_A = [
    ("C38", "Recommendations and similar profiles are the right ones",
     "The items recommended to a user and the profiles reported as similar are the best ones by the documented measure.",
     ["inputs", "histories"], "every database", "Unit tests sample a few databases.",
     [R + "likestorage.go"], [("ProcessActions", R + "likestorage.go")],
     "The storage that would compute them is a stub in this tree (it answers with empty results), and the result is numeric: static analysis has nothing to decide."),
    ("C40", "Acknowledged data survives a power failure",
     "Data of a flush or close that has succeeded is on stable storage.",
     ["crash_points"], "every power failure", "Tests can't cut the power.",
     [D + "storage.go", I + "storage.go"], [("Flush, Close", D + "storage.go")],
     "The system doesn't promise it: the file interface it uses has no operation to sync, and its model of a crash is the death of the process (C05, C06)."),
    ("C41", "Requests are processed within a bounded time",
     "An action is processed within the batching delay plus the time its batch takes.",
     ["schedules"], "every load", "Tests can't cover loads.",
     [N + "likenamespace.go"], [("Start", N + "likenamespace.go")],
     "Timing depends on the runtime and the hardware; no sound static argument in reach bounds it."),
]
