claim("C01","Every obligation of the index and range functions is discharged for all 64-bit integers, wrap-around included.")
claim("C02","Comparison contracts proved for all byte strings with inductive loop invariants; stored-value comparison is proved to delegate to it.")
claim("C03","Container operations proved against a finite map from key bytes to value bytes, for every key list, value and history.")
claim("C04","Increase and decrease proved for every stored text and every 64-bit amount, with the cached text, bytes, length, hash and integer kept consistent by the class invariant.")
claim("C05","Linked list operations proved against a sequence carried in ghost positions of the nodes, including that the chain is well formed in both directions.")
claim("C06","Insert, set, remove and trim proved against the same ghost sequence, with first and counted matches defined by folds over it.")
claim("C07","Every hash operation proved against a finite map; listings are proved to contain each field exactly once for any iteration order of the Go map.")
claim("C08","Every set operation proved against a finite set with its cardinality; random picks proved for any iteration order.")
claim("C09","Difference, intersection and union proved for any number of operands, with the participating sets proved unchanged.")
claim("C12","Encoders, accessors and the parser proved against one RESP encoding; round trip and consumption proved for objects of any nesting by induction. fmt, strconv and bufio are assumed models.")
claim("C13","Every read path proved free of panics, nil objects and non-termination (decreasing measure) for all byte streams; bufio is an assumed model, memory and stack unbounded.")
claim("C17","All three data map variants proved against one map abstraction; sync.Map is assumed to be a linearizable map.")
claim("C18","Lock discipline proved per function and return path: guarded fields only touched while the lock is held, every lock taken is released; mutex semantics assumed.")
NA["C21"]="pkg/container/sorted_set.go is not reachable from any command, database or exported interface of the system; nothing observable depends on it, so no user-visible behaviour can be stated over contracts."
NA["C22"]="Delivery, wake-up and exactly-once hold over schedules of goroutines and channels; per-function contracts in this verifier are sequential (locks only, no channel or permission logic), so they can neither express nor decide it."
NA["C23"]="Ending goroutines and connections is a liveness property of concurrent goroutines and the operating system; partial-correctness contracts cannot decide it."
claim("C10","Every one of the 43 commands is executed symbolically from request to reply: which argument lists are accepted is proved exactly, rejection is proved to leave the data as it was, and every panic site is an obligation. Value clauses of the same units are decided under the other properties.")
claim("C11","Dispatch proved for every name string through the real lookup table: accepted names, key kind, keys and modifying/access classification.")
claim("C19","The four collections of a database are four separate maps; every lookup and creation is proved against them, for every name.")
claim("C14","Packing and parsing proved for every record, every byte stream and every cut of it: the frames are folds over the stream, the parser's loop is proved against them. proto.Marshal/Unmarshal and bufio are assumed models.")
claim("C16","Receive proved for every byte stream and every point at which it ends or fails, on top of the parsing contract of C14.")
claim("C20","The request loop, request parsing, the handler and the error mapping are under contract: every accepted request is answered by exactly one publication carrying its id and the command's own outcome. The commands are seen through their interface; receiving, publishing and executing are assumed interface contracts.")
claim("C15","Logging is proved per request (one record, before execution, with name, database and arguments) and rebuilding per record, in order; recorded arguments are proved to parse back to the same objects. Records whose strings are not UTF-8 are a known finding. proto, bufio and the execution of commands are assumed models.")
