#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=None)))

CMD="pkg/command/"
CON="pkg/container/"

p("C01", "Index and range arguments select exactly the documented elements",
  "For every index and every length, a non-negative index denotes that position and a negative index counts from the end; an index outside the sequence selects nothing. For every pair of bounds and every length, a range selects the contiguous positions from the resolved left bound to the resolved right bound inclusive with the right bound cut at the last position, and selects nothing when a bound lies before the first position, the left bound lies past the last position, or left is greater than right.",
  ["inputs"], "all machine integers as index, left, right and all non-negative lengths",
  "The tests check a table of about twenty triples; the rule must hold for every index, bound and length, including the extremes of the integer range.",
  ["pkg/util/index.go"],
  [("Index.Resolve/ResolveRaw", "pkg/util/index.go"), ("Slice.Resolve/ResolveRaw", "pkg/util/index.go")],
  obs=["util.NewIndex(i).Resolve(n)", "util.NewSlice(l,r).Resolve(n)"])

p("C02", "String comparison is a total order consistent with equality",
  "The lexical comparison of any two byte strings returns zero exactly when they are equal; otherwise its sign says which string is smaller (first differing byte, or a proper prefix being smaller), so swapping the operands flips the sign, and its magnitude identifies where the order was decided. Comparing stored string values follows the same order.",
  ["inputs"], "all pairs of byte strings, including the empty string and strings with bytes above 0x7f",
  "The tests compare a handful of ASCII pairs; antisymmetry and equality must hold for every pair, including empty strings.",
  ["pkg/util/util.go", CON+"string.go"],
  [("LexicalCompare", "pkg/util/util.go"), ("CompareTo", CON+"string.go")],
  obs=["util.LexicalCompare(a,b)"])

p("C03", "String keyspace: reads return exactly the last written bytes",
  "After a string write (single, multiple or append) every key written holds exactly the bytes last given for it (append: the old bytes followed by the new ones), every other key is untouched, and the reads (single, multiple, existence count, length) return exactly the stored bytes, counts and lengths with null for absent keys, in argument order. A sub-range read returns exactly the selected bytes of the stored value.",
  ["inputs", "histories"], "all keys, values, argument lists and prior contents",
  "The tests sample a few keys and values per command; the guarantee must hold for any number of keys including duplicates, any bytes, and any earlier history.",
  [CON+"string_map.go", CON+"string.go", CMD+"global.go"],
  [("simpleStringMap.Set/Get/Append/Exists/StringLen/GetRange", CON+"string_map.go"), ("SET/GET/MSET/MGET/EXISTS/STRLEN/APPEND/GETRANGE commands", CMD+"global.go")],
  state=[("global", "key -> string value", CON+"container.go")],
  obs=["DB.ExecuteCommand + Command.Result"])

p("C04", "Counters: increment and decrement change the value by exactly the amount",
  "Incrementing or decrementing a key that holds a decimal 64-bit integer stores the decimal form of the old value plus or minus the amount, replies that number, and later reads, lengths and counter operations all see it; no other key changes. A missing key, a non-integer value, a non-integer amount or a result outside the 64-bit range yields an error and changes nothing.",
  ["inputs", "histories"], "all stored values, amounts and operation sequences whose results fit in 64 bits",
  "The tests sample random numbers; the cached integer, the text, the bytes and the length must agree after any sequence of operations.",
  [CON+"string.go", CON+"int_variant.go", CON+"string_map.go", CMD+"global.go"],
  [("StringContainer.Increase/Decrease/update", CON+"string.go"), ("INCR/INCRBY/DECR/DECRBY commands", CMD+"global.go")],
  state=[("StringContainer", "text, bytes, size, hash and cached integer of one value", CON+"string.go")],
  obs=["DB.ExecuteCommand + Command.Result"])

p("C05", "Lists: push, pop, length, index and range behave as a sequence",
  "A list holds a finite sequence of values: pushing at the head or tail of any number of values adds them one after another at that end, popping removes and returns the value at that end (null when empty), and length, positional read and range read report exactly that sequence. Operations on one list never change another list.",
  ["inputs", "histories"], "all lists reachable by any history of list operations, all argument values, counts and indices",
  "The tests exercise short fixed sequences; a doubly linked list must keep both directions, the size and the sequence consistent after any history.",
  [CON+"list.go", CMD+"list.go"],
  [("linkedList push/pop/index/range and sentinels", CON+"list.go"), ("LPUSH/RPUSH/LPOP/RPOP/LLEN/LINDEX/LRANGE commands", CMD+"list.go")],
  state=[("linkedList", "head/tail sentinels, node chain, size", CON+"list.go")],
  obs=["container.ListContainer methods"])

p("C06", "Lists: insert, set, remove and trim edit exactly the addressed elements",
  "Inserting relative to a pivot places the value directly before or after the first element equal to the pivot and otherwise changes nothing and reports the pivot missing; setting replaces exactly the addressed element or reports out of range; removing deletes exactly the first count matching elements from the head (from the tail for a negative count, all for zero) keeping the order of the rest and reports how many. Trimming keeps exactly the selected range, and leaves the list unchanged when the range selects nothing.",
  ["inputs", "histories"], "all lists reachable by any history, all pivots, counts, indices, ranges and values",
  "The corresponding tests are empty or sample one short list; element values, duplicates, positions and counts are unbounded.",
  [CON+"list.go", CMD+"list.go"],
  [("linkedList insert/set/remove/trim", CON+"list.go"), ("LINSERT/LSET/LREM/LTRIM commands", CMD+"list.go")],
  state=[("linkedList", "head/tail sentinels, node chain, size", CON+"list.go")],
  obs=["container.ListContainer methods"])

p("C07", "Hashes: every operation agrees with a finite map from fields to values",
  "A hash holds a finite map from field to value: setting pairs applies them in order (later duplicates win) and reports how many fields are new, deleting removes exactly the named fields and reports how many existed, and reads return for each requested field exactly its value or null. Key, value and pair listings contain every field exactly once with its own value, the length equals the number of fields, and other hashes are untouched.",
  ["inputs", "histories"], "all hashes reachable by any history, all field and value lists including duplicates",
  "The tests use a few fixed fields; duplicates, iteration order and arbitrary histories are not covered.",
  [CON+"hash.go", CMD+"hash.go"],
  [("hashContainer methods", CON+"hash.go"), ("HSET/HGET/HMGET/HDEL/HEXISTS/HLEN/HSTRLEN/HKEYS/HVALS/HGETALL commands", CMD+"hash.go")],
  state=[("hashContainer", "field -> (field, value)", CON+"hash.go")],
  obs=["container.HashContainer methods"])

p("C08", "Sets: add, remove, membership, listing and random picks agree with a set",
  "A set holds distinct members: adding or removing any list of values changes exactly those members and reports how many actually changed, membership and cardinality report the current members, and listing returns every member exactly once. A random pick of n returns min(|n|, cardinality) distinct current members without changing the set; a pop returns such members and removes exactly them.",
  ["inputs", "histories"], "all sets reachable by any history, all value lists including duplicates, all counts and all map iteration orders",
  "The tests sample a few members; duplicates, counts of either sign and every iteration order must be covered.",
  [CON+"set.go", CMD+"set.go"],
  [("setContainer methods", CON+"set.go"), ("SADD/SREM/SISMEMBER/SMEMBERS/SCARD/SPOP/SRANDMEMBER commands", CMD+"set.go")],
  state=[("setContainer", "member text -> member", CON+"set.go")],
  obs=["container.SetContainer methods"])

p("C09", "Set difference, intersection and union are exact and leave inputs unchanged",
  "The difference, intersection and union of a set with any number of other sets contain exactly the members given by set algebra (difference: in the first and in none of the others), each once, whatever sets are absent, empty, repeated or identical. Computing them changes none of the participating sets.",
  ["inputs", "histories"], "all families of sets of any size, including the same set several times and absent keys",
  "The tests use a couple of three-set examples; the number of sets, overlaps and aliasing between operands are unbounded.",
  [CON+"set.go", CMD+"set.go"],
  [("setContainer.Diff/Intersect/Union", CON+"set.go"), ("SDIFF/SINTER/SUNION commands", CMD+"set.go")],
  obs=["container.SetContainer methods"])

p("C10", "Bad requests are rejected without effect and no request crashes execution",
  "Every request whose command is unknown, whose argument count is wrong, or whose arguments are not strings (or not integers where integers are required) is answered with an error and changes no stored data. No request of any name, argument list or prior data - including empty keys, empty members and empty collections - makes command parsing or execution panic, and each yields a reply or an error.",
  ["inputs", "histories"], "all command names, all argument lists of RESP objects, all reachable stores",
  "The tests send a few malformed argument lists per command and never combine them with unusual stored state; absence of a crash is a statement about all inputs.",
  [CMD+"command.go", CMD+"global.go", CMD+"list.go", CMD+"hash.go", CMD+"set.go", "pkg/db/db.go"],
  [("ParseArguments of each command", CMD), ("NewCommand", CMD+"command.go"), ("ExecuteCommand/resolveName", "pkg/db/db.go")],
  obs=["command.NewCommand", "DB.ExecuteCommand"])

p("C11", "Commands dispatch by name, case-insensitively, and are classified correctly",
  "Each of the supported command names, in any letter case, creates the command of that name addressed to its own key kind and the keys given in its arguments, and no other name is accepted. Every command that can change stored data is classified as modifying and every read-only command as access, so that exactly the modifying ones reach the log.",
  ["inputs"], "all command names in all letter cases and all argument lists",
  "Tests construct commands one at a time and rarely look at the classification; a misclassified command only shows after a restart.",
  [CMD+"command.go", CMD+"global.go", CMD+"list.go", CMD+"hash.go", CMD+"set.go"],
  [("keyMap dispatch table", CMD+"command.go"), ("Type() of every command", CMD)],
  obs=["command.NewCommand(...).Type()"])

p("C12", "RESP encodings are exact and parse back to the same value",
  "Every reply object encodes to exactly the RESP bytes of its kind and value: simple strings, errors, integers, bulk strings with their byte length, null bulk strings, arrays as the count followed by the encodings of the elements in order, and null arrays. Parsing the encoding of a single-line simple string or error, an integer, a bulk string of any bytes, or an array of such values (nested to any depth) yields an object of the same kind and value and consumes exactly its bytes.",
  ["inputs"], "all values: any bytes in bulk strings, all 64-bit integers, arrays of any length and nesting",
  "The tests encode and parse a few literals; binary payloads containing delimiters, long arrays and deep nesting are unbounded.",
  ["pkg/protocol/resp.go", "pkg/protocol/reader.go"],
  [("NewSimpleRedisString/NewBulkRedisString/NewRedisInteger/NewRedisError/NewRedisArray", "pkg/protocol/resp.go"), ("respReader", "pkg/protocol/reader.go")],
  obs=["RedisObject.Byte()/String()", "protocol.Parse"])

p("C13", "The RESP parser never crashes, whatever bytes it is fed",
  "Parsing any byte stream, including truncated, malformed and hostile ones, terminates its reading of the available bytes with either a well-formed object and no error, or an error; it never panics (memory and stack permitting). A successful parse never returns a nil object.",
  ["inputs"], "all byte streams of any length, ending at any point",
  "The tests feed a fixed table of malformed messages; one unlisted malformed length or token that crashes the parser takes the server down.",
  ["pkg/protocol/reader.go"],
  [("readToken/readBytes/readString/readArray/readObject", "pkg/protocol/reader.go")],
  obs=["protocol.Parse", "RESPReader.ReadObject"])

p("C14", "The log file framing is exact and truncation is never mistaken for success",
  "Packing a log record produces a four-byte little-endian length of the serialized record followed by exactly those bytes. Reading a log returns, in order, every record whose frame is complete; a stream that ends inside a header or a body returns the complete records together with an error, and only a stream that ends exactly at a record boundary is reported as complete.",
  ["inputs", "crash_points"], "all sequences of records and all truncation points of the resulting bytes",
  "The tests write a few records and read them back; they try no truncation inside a header and no arbitrary record count.",
  ["pkg/log/log.go", "pkg/util/util.go"],
  [("PackLog", "pkg/log/log.go"), ("ParseLog/readLog", "pkg/log/log.go"), ("ReadExactBytes", "pkg/util/util.go")],
  obs=["log.PackLog", "log.ParseLog"])

p("C15", "Every executed modification is logged once, in order, and replayed the same",
  "When a modifying request is accepted, exactly one record carrying its name, database and all its arguments is handed to the log before the next request is processed, in execution order, and access requests and rejected requests are never logged. Rebuilding from a log re-executes every record in order with the recorded name, database and arguments, skipping only records that are rejected.",
  ["inputs", "histories", "schedules"], "all request sequences, argument values and goroutine schedules",
  "The tests never compare the log order with the execution order and never inject an unfavourable schedule.",
  ["pkg/db/engine.go", "pkg/log/log.go"],
  [("handleRequest/writeLog", "pkg/db/engine.go"), ("BuildFromLog/convertArguments", "pkg/db/engine.go"), ("NewLog", "pkg/log/log.go")],
  state=[("file", "append-only log of modifying requests", "pkg/db/engine.go")],
  obs=["engine.handleRequest", "engine.BuildFromLog"])

p("C16", "A replica accepts only a complete snapshot and parses exactly its bytes",
  "Receiving a replication snapshot reads the four-byte little-endian length and then exactly that many bytes, and returns precisely the records those bytes contain. A connection that ends before the header or the announced bytes are complete yields an error and no records; an announced length of zero yields no records and no error.",
  ["inputs", "fault_sequences"], "all byte streams delivered by the connection and all points at which it may end",
  "No test truncates the stream; the guarantee concerns every cut point.",
  ["pkg/replication/replica.go", "pkg/util/util.go"],
  [("replica.Receive", "pkg/replication/replica.go"), ("ReadExactBytes", "pkg/util/util.go")],
  obs=["Replica.Receive"])

p("C17", "Data maps behave as one map from names to values in all three variants",
  "In each of the data map variants (plain, locked, concurrent) setting a name makes exactly that name map to exactly that value, removing makes exactly that name absent, lookups and membership report the current state, and the length equals the number of distinct names present, after any sequence of operations.",
  ["inputs", "histories"], "all names, values and sequential histories of operations",
  "The tests run one short history per variant; repeated sets, removals of absent names and counts after arbitrary histories are unbounded.",
  ["pkg/types/data_map.go"],
  [("simpleDataMap/lockedDataMap/syncDataMap", "pkg/types/data_map.go")],
  obs=["types.DataMap methods"])

p("C18", "Shared structures are only touched under their lock, which is always released",
  "In the locked data map, the persistent log file, the event bus and the replication master's connection table, every access to the protected state happens while the structure's own lock is held, writes only while it is held exclusively, and every operation releases on every return path exactly the locks it took. Hence concurrent calls are serialized and no call leaves the structure locked.",
  ["schedules", "inputs"], "all interleavings of calls and all return paths of every operation",
  "A race or a lock left behind on one return path only shows under a particular interleaving; the tests run single schedules.",
  ["pkg/types/data_map.go", "pkg/log/persistent.go", "pkg/concurrency/event_bus.go", "pkg/replication/master.go"],
  [("mutex discipline", "pkg/types/data_map.go"), ("PersistentFile mutex", "pkg/log/persistent.go"), ("eventBus mutex", "pkg/concurrency/event_bus.go"), ("master mutex", "pkg/replication/master.go")],
  obs=["every exported operation"])

p("C19", "Key kinds are separate namespaces and a command touches only its own key",
  "Strings, lists, hashes and sets live in separate namespaces: looking up or creating a key of one kind never observes or changes a key of another kind, the same name always yields the same collection of that kind once created, and distinct names yield distinct collections. A read of an absent key creates nothing.",
  ["inputs", "histories"], "all key names, kinds and histories of lookups and creations",
  "The tests use one key per kind; identity and separation must hold for all names and orders of creation.",
  [CON+"container.go", "pkg/db/db.go"],
  [("containers.Get*/GetOrCreate*", CON+"container.go"), ("resolveName", "pkg/db/db.go")],
  obs=["container.Containers methods"])

p("C20", "Every request gets one reply carrying its own identity and a faithful outcome",
  "A well-formed engine request is answered with exactly the command's result when it succeeds and with an error reply when it fails; failures of the documented kinds (unknown command, invalid argument, non-integer value, missing key, index out of range) are answered with their documented messages even when wrapped.",
  ["inputs", "histories"], "all requests and all error chains",
  "The tests check a few error strings; wrapping depth and the mapping for every error kind are not covered.",
  ["pkg/db/engine.go"],
  [("handleRequest/handleError/parseRequest", "pkg/db/engine.go")],
  obs=["engine.handleRequest", "handleError"])

# Properties written down but not claimed (see MANIFEST not_applicable)
p("C21", "Sorted sets keep entries ordered by score with correct ranks",
  "A sorted set keeps each entry once, ordered by score and then by entry, pops the smallest and largest entries correctly, and reports ranks equal to the position in that order.",
  ["inputs", "histories"], "all histories of insertions, updates and removals, and all random level choices",
  "The tests insert a few entries; order and spans must hold for all histories and level choices.",
  [CON+"sorted_set.go"], [("skipList", CON+"sorted_set.go")])

p("C22", "Futures and channels: every accepted event reaches each receiver once, in order",
  "Every event published to a topic is delivered to each current subscriber exactly once and in publication order, a completed future yields its value to every waiter, and closing wakes all waiters.",
  ["schedules", "histories"], "all interleavings of publishers, subscribers and closers",
  "The tests run a few goroutines on one schedule; delivery and wake-up concern all interleavings.",
  ["pkg/concurrency/data_channel.go", "pkg/concurrency/future.go", "pkg/concurrency/event_bus.go"],
  [("dataChannel", "pkg/concurrency/data_channel.go"), ("future", "pkg/concurrency/future.go")])

p("C23", "Shutdown: stopping the server closes every connection and flushes the log",
  "Stopping the server ends every client connection and every goroutine it started, and all records logged before the stop are on disk afterwards.",
  ["schedules", "crash_points", "configurations"], "all configurations and all moments at which stop is called",
  "No test stops a server with live connections or without a replica.",
  ["pkg/network/server.go", "pkg/db/engine.go", "cmd/server/main.go"],
  [("server.stop", "pkg/network/server.go"), ("engine.Stop", "pkg/db/engine.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
