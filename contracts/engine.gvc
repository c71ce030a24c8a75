// The engine: requests in, replies out (C20), and the log (C15).

// a chain of several kinds may be answered as any of them
define answered1(e, t) = (errIs(e, command.ErrCommandNotExist) && t == encError("ERR no such command")) || (errIs(e, command.ErrArgumentInvalid) && t == encError("ERR invalid argument")) || (errIs(e, container.ErrNotAInt) && t == encError("ERR value is not an integer or out of range")) || (errIs(e, command.ErrNoSuchKey) && t == encError("ERR no such key")) || (errIs(e, container.ErrOutOfRange) && t == encError("ERR index out of range"))
define documented(e) = errIs(e, command.ErrCommandNotExist) || errIs(e, command.ErrArgumentInvalid) || errIs(e, container.ErrNotAInt) || errIs(e, command.ErrNoSuchKey) || errIs(e, container.ErrOutOfRange)

func db.handleError(err) (r)
  props C20
  requires err != nil
  inv protocol.redisError
  ensures [documented] imp(documented(err), answered1(err, enc(r)))
  ensures [error] r != nil && fresh(r) && enc(r)[0] == 45

// a request as a connection publishes it: an id and an array of words
define rmap(d) = as(d, "types.simpleDataMap").container
define request(d) = is(d, "*types.simpleDataMap") && has(rmap(d), "id") && is(rmap(d)["id"], "string") && has(rmap(d), "request") && is(rmap(d)["request"], "*protocol.redisArray")
define words(d) = aelems(rmap(d)["request"])

func db.parseRequest(data) (id, objects, ok)
  props C20
  requires data != nil && (is(data, "*types.simpleDataMap") || is(data, "*types.lockedDataMap") || is(data, "*types.syncDataMap"))
  requires imp(is(data, "*types.lockedDataMap"), held(as(data, "types.lockedDataMap").mutex) == 0)
  inv types.simpleDataMap, types.lockedDataMap, types.syncDataMap, protocol.redisArray
  ensures [accepted] imp(is(data, "*types.simpleDataMap"), iff(ok, request(data)))
  ensures [id] imp(ok && is(data, "*types.simpleDataMap"), id == as(rmap(data)["id"], "string"))
  modifies ghost("run.asked", nil)
  ghost ghost("run.asked", nil) := old(ghost("run.asked", nil)) + ite(ok, 1, 0)
  ensures [count] ghost("run.asked", nil) == old(ghost("run.asked", nil)) + ite(ok, 1, 0)
  ensures [real] imp(ok, forall(i, 0, len(objects), 0 < objects[i], trig(objects[i])))
  ensures [objects] imp(ok && is(data, "*types.simpleDataMap"), len(objects) == len(words(data)) && forall(i, 0, len(objects), objects[i] == words(data)[i], trig(objects[i])))

// The engine sees a command through its interface: it asks for the type,
// executes it on a database and asks for the result. The contracts below are
// in force only for the engine's own functions; everywhere else the code of
// the commands is executed symbolically.
define engineOf(e) = held(command.lock) == 0
define made = ghost("run.made", nil)
define executed = ghost("run.executed", nil)
define written = ghost("run.written", nil)
define pending = ghost("run.pending", nil)
define asked = ghost("run.asked", nil)
define answered = ghost("run.answered", nil)

func command.NewCommand(name, index, arguments) (c, err)
  props C20
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  scope db\.\(\*engine\).*
  budget 600
  requires held(command.lock) == 0
  modifies ghost("run.made", nil), ghost("run.pending", nil)
  ghost ghost("run.made", nil) := old(made) + 1
  ghost ghost("run.pending", nil) := ite(err == nil, 1, 0)
  hint [parsed] mapping("string", "protocol.RedisObject", is(s, "*protocol.redisString") && d == as(s, "protocol.redisString").data, 2)
  hint [even] mv_i % 2 == 0
  hint [odd] mv_i % 2 == 1
  hint [pairs] 2 * len(mv_l) == mv_i
  ensures [unknown] imp(!known(lower(name)), errIs(err, command.ErrCommandNotExist))
  ensures [rejected] imp(known(lower(name)) && err != nil, errIs(err, command.ErrArgumentInvalid))
  ensures [made] imp(err == nil, c != nil && fresh(c))
  ensures [count] made == old(made) + 1 && pending == ite(err == nil, 1, 0)

func command.Command.Type(c) (t)
  props C15, C20
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  scope db\.\(\*engine\).*

func command.Command.Result(c) (r, err)
  props C15, C20
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  scope db\.\(\*engine\).*

func db.DB.ExecuteCommand(d, c)
  props C15, C20
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  scope db\.\(\*engine\).*
  trusted
  requires d != nil && c != nil
  modifies ghost("run.executed", nil), ghost("run.pending", nil), all container.*, all command.*
  ensures executed == old(executed) + 1 && pending == 0

class db.engine e
  body [databases] all(k, "any", imp(has(e.dbMap, k), is(vals(e.dbMap)[k], "*db.db")))

func db.(*engine).getOrCreateDB(e, index) (d)
  props C20, C15
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  modifies content(e.dbMap)
  ensures [database] d != nil && has(e.dbMap, box(index)) && vals(e.dbMap)[box(index)] == d
  ensures [others] all(k, "any", imp(k != box(index), has(e.dbMap, k) == old(has(e.dbMap, k)) && vals(e.dbMap)[k] == old(vals(e.dbMap)[k])))
  ensures [kept] imp(old(has(e.dbMap, box(index))), d == old(vals(e.dbMap)[box(index)]))

// the record of a request: its name, database and arguments
func log.NewLog(name, index, objects) (vl)
  props C15
  inv protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray
  requires len(objects) > 0 && forall(i, 0, len(objects), 0 < objects[i], trig(objects[i]))
  hint [arguments] len(mv_l) == mv_i && forall(k, 0, len(mv_l), mv_l[k] == enc(objects[k+1]), trig(mv_l[k]))
  ensures [record] vl != nil && fresh(vl) && vl.Name == name && imp(0 - 2147483648 <= index && index <= 2147483647, vl.Index == index)
  ensures [arguments] len(vl.Arguments) == len(objects) - 1 && forall(k, 0, len(vl.Arguments), vl.Arguments[k] == enc(objects[k+1]), trig(vl.Arguments[k]))

define named(o) = len(o) > 0 && is(o[0], "*protocol.redisString")
define accepted = named(objects) && lastresult("command.NewCommand", 1) == nil
define created = lastresult("command.NewCommand")
define words1(o, a) = len(a) == len(o) - 1 && forall(i, 0, len(a), a[i] == o[i+1], trig(a[i]))

define modifies1 = lastresult("command.Command.Type") == command.ModifyCommandType
define logged = accepted && modifies1 && e.file != nil

func db.(*engine).handleRequest(e, objects) (r, err)
  props C20, C15
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  requires held(command.lock) == 0 && imp(e.file != nil, held(e.file.mutex) == 0)
  requires forall(i, 0, len(objects), 0 < objects[i], trig(objects[i]))
  modifies ghost("run.made", nil), ghost("run.executed", nil), ghost("run.pending", nil), ghost("run.written", nil), all container.*, all command.*, content(e.dbMap), e.file.writer.out, all proto.$wire
  atcall "log.NewLog" [record] {C15} accepted && modifies1 && arg0 == bdata(objects[0]) && arg1 == 1 && len(arg2) == len(objects) && forall(i, 0, len(arg2), arg2[i] == objects[i], trig(arg2[i]))
  atcall "log.PackLog" [record] {C15} arg0 == lastresult("log.NewLog")
  atcall "log.(*PersistentFile).Write" [record] {C15} arg0 == e.file && len(arg1) == len(lastresult("log.PackLog")) && bytestr(arg1) == bytestr(lastresult("log.PackLog")) && lastresult("log.PackLog", 1) == nil
  ensures [packed] {C15} imp(logged, lastresult("log.PackLog", 1) == nil)
  ensures [written] {C15} written == old(written) + ite(logged && lastresult("log.PackLog", 1) == nil, 1, 0)
  atcall "command.NewCommand" [request] named(objects) && arg0 == bdata(objects[0]) && words1(objects, arg2)
  atcall "db.DB.ExecuteCommand" [accepted] accepted
  atcall "db.DB.ExecuteCommand" [command] arg1 == created
  atcall "db.DB.ExecuteCommand" [database] arg0 == vals(e.dbMap)[box(1)]
  atcall "command.Command.Type" [command] arg0 == created
  atcall "command.Command.Result" [command] arg0 == created && executed == old(executed) + 1
  ensures [once] made == old(made) + ite(named(objects), 1, 0) && executed == old(executed) + ite(accepted, 1, 0)
  ensures [unnamed] imp(!named(objects), r == nil && err != nil)
  ensures [rejected] imp(named(objects) && !accepted, r == nil && err != nil && all(t, "error", imp(errIs(lastresult("command.NewCommand", 1), t), errIs(err, t)), trig(errIs(lastresult("command.NewCommand", 1), t))))
  ensures [result] imp(accepted, imp(lastresult("command.Command.Result", 1) == nil, err == nil && r == lastresult("command.Command.Result")))
  ensures [failed] imp(accepted && lastresult("command.Command.Result", 1) != nil, r == nil && err != nil && all(t, "error", imp(errIs(lastresult("command.Command.Result", 1), t), errIs(err, t)), trig(errIs(lastresult("command.Command.Result", 1), t))))

func concurrency.Receiver.Receive(r) (ev, err)
  props C20
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  scope db\.\(\*engine\)\.Start
  trusted
  modifies ghost("stream.frames", nil)
  ensures iff(err == nil, ev != nil) && imp(err != nil, errIs(err, concurrency.ErrChannelClosed))
  ensures imp(err == nil, all(m, "*types.lockedDataMap", held(m.mutex) == 0))

func concurrency.EventBus.Publish(b, topic, data, err) (f)
  props C20
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  scope db\.\(\*engine\)\.Start
  trusted
  modifies ghost("run.answered", nil)
  ensures answered == old(answered) + 1

func replication.Master.Start(m)
  props C20
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  scope db\.\(\*engine\)\.Start
  trusted

define rid = lastresult("db.parseRequest")
define reply = as(arg2, "types.simpleDataMap").container

func db.(*engine).Start(e)
  props C20
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  requires held(command.lock) == 0 && imp(e.file != nil, held(e.file.mutex) == 0)
  requires e.requestReceiver != nil && e.eventBus != nil
  modifies ghost("run.made", nil), ghost("run.executed", nil), ghost("run.pending", nil), ghost("run.written", nil), ghost("run.asked", nil), ghost("run.answered", nil), ghost("stream.frames", nil), all container.*, all command.*, content(e.dbMap), e.file.writer.out, all proto.$wire
  hint [answered] asked - answered == old(asked) - old(answered)
  hint [lock] held(command.lock) == 0
  hint [file] imp(e.file != nil, held(e.file.mutex) == 0)
  atcall "concurrency.Receiver.Receive" [answered] asked - answered == old(asked) - old(answered)
  atcall "db.parseRequest" [event] arg0 == as(lastresult("concurrency.Receiver.Receive"), "concurrency.event").data
  atcall "db.(*engine).handleRequest" [request] lastresult("db.parseRequest", 2) && len(arg1) == len(lastresult("db.parseRequest", 1)) && forall(i, 0, len(arg1), arg1[i] == lastresult("db.parseRequest", 1)[i], trig(arg1[i]))
  atcall "db.handleError" [error] arg0 == lastresult("db.(*engine).handleRequest", 1)
  atcall "concurrency.EventBus.Publish" [own] lastresult("concurrency.Receiver.Receive") < arg2
  atcall "concurrency.EventBus.Publish" [reply] arg1 == "response" && is(arg2, "*types.simpleDataMap") && has(reply, "id") && reply["id"] == box(rid) && has(reply, "response")
  atcall "concurrency.EventBus.Publish" [outcome] reply["response"] == ite(lastresult("db.(*engine).handleRequest", 1) == nil, lastresult("db.(*engine).handleRequest"), lastresult("db.handleError"))
  ensures [answered] asked - answered == old(asked) - old(answered)

func log.FormatLog(vl) (s)
  props C15
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  scope db\.\(\*engine\)\..*
  requires vl != nil

// Rebuilding: every record, in order, through the same two steps.
func db.convertArguments(s) (r)
  props C15
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  scope db\.\(\*engine\)\.BuildFromLog
  hint [own] mv_l == nil || (own(mv_l) == 0 && !isold(mv_l))
  hint [real] len(mv_l) <= mv_i && forall(k, 0, len(mv_l), mv_l[k] != nil, trig(mv_l[k]))
  ensures [real] len(r) <= len(s) && forall(k, 0, len(r), r[k] != nil, trig(r[k]))

func db.(*engine).BuildFromLog(e, logs)
  props C15
  inv db.engine, container.containers, container.simpleStringMap, protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader, log.PersistentFile, types.simpleDataMap, types.lockedDataMap, types.syncDataMap
  requires held(command.lock) == 0 && forall(i, 0, len(logs), 0 < logs[i] && allocated(logs[i]), trig(logs[i]))
  modifies ghost("run.made", nil), ghost("run.executed", nil), ghost("run.pending", nil), all container.*, all command.*, content(e.dbMap)
  let at0 := made
  ghostpre ghost("run.pending", nil) := 0
  hint [order] made == at0 + mv_i
  hint [executed] pending == 0
  atcall "db.convertArguments" [arguments] made - at0 < len(logs) && sameStrings(arg0, logs[made - at0].Arguments)
  atcall "command.NewCommand" [record] pending == 0 && 0 <= made - at0 && made - at0 < len(logs) && arg0 == logs[made - at0].Name && arg1 == logs[made - at0].Index && same(arg2, lastresult("db.convertArguments"))
  atcall "db.(*engine).getOrCreateDB" [database] 0 < made - at0 && arg1 == logs[made - at0 - 1].Index
  atcall "db.DB.ExecuteCommand" [command] pending == 1 && arg1 == created && arg0 == lastresult("db.(*engine).getOrCreateDB")
  ensures [all] made == at0 + len(logs) && pending == 0

define same(a, b) = len(a) == len(b) && forall(i, 0, len(a), a[i] == b[i], trig(a[i]))
define sameStrings(a, b) = len(a) == len(b) && forall(i, 0, len(a), a[i] == b[i], trig(a[i]))

// What is recorded comes back: the arguments of a request, written into a
// record and read from it again.
func db.verif_replay(name, index, objects) (r)
  props C15
  driver
  inv protocol.redisString, protocol.redisError, protocol.redisInteger, protocol.redisArray, protocol.respReader
  requires len(objects) > 0 && forall(i, 0, len(objects), 0 < objects[i] && allocated(objects[i]) && canon(objects[i]), trig(objects[i]))
  hint [arguments] len(mv_l) == mv_i && forall(k, 0, len(mv_l), mv_l[k] != nil && enc(mv_l[k]) == enc(objects[k+1]), trig(mv_l[k]))
  hint [own] mv_l == nil || (own(mv_l) == 0 && !isold(mv_l))
  hint [next] imp(mv_i + 1 < len(objects), mention(enc(objects[mv_i+1]), spot(objects[mv_i+1], enc(objects[mv_i+1]), 0)))
  ensures [arguments] len(r) == len(objects) - 1 && forall(k, 0, len(r), enc(r[k]) == enc(objects[k+1]), trig(r[k]))
