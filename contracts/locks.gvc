// Lock discipline of the persistent log file, the event bus and the
// replication master (C18). Locks are modelled as the set the running
// goroutine holds: 0 not held, -1 held exclusively, 1 held shared. Acquiring a
// lock already held is an error (self-deadlock); releasing requires the
// matching mode; every frame condition includes the lock states, so a return
// path that leaves a lock held fails.

guard log.PersistentFile.writer log.PersistentFile.mutex pointee
guard concurrency.eventBus.topics concurrency.eventBus.mutex pointee
guard replication.master.conn replication.master.mutex pointee

class log.PersistentFile p
  body [parts] p.mutex != nil && p.writer != nil && p.writer.wowner == p

field bufio.Writer wowner ref

class concurrency.eventBus e
  body [topics] e.topics != nil && e.topics.downer == e
  body [values] all(k, string, imp(has(e.topics, k), e.topics[k] != nil))

class replication.master m
  body [conn] m.conn != nil && m.conn.downer == m && m.listener != nil
  body [values] all(k, string, imp(has(m.conn, k), m.conn[k] != nil))

func log.NewPersistentFile(file) (r)
  props C18
  inv log.PersistentFile
  requires file != nil
  ghost r.writer.wowner := r
  ensures [fresh] r != nil && fresh(r) && held(r.mutex) == 0

func log.(*PersistentFile).Available(p) (n)
  props C18
  inv log.PersistentFile
  requires held(p.mutex) == 0
  ensures [released] held(p.mutex) == 0

func log.(*PersistentFile).Buffered(p) (n)
  props C18
  inv log.PersistentFile
  requires held(p.mutex) == 0
  ensures [released] held(p.mutex) == 0

func log.(*PersistentFile).Size(p) (n)
  props C18
  inv log.PersistentFile
  requires held(p.mutex) == 0
  ensures [released] held(p.mutex) == 0

func log.(*PersistentFile).Flush(p) (err)
  props C18
  inv log.PersistentFile
  requires held(p.mutex) == 0
  modifies p.writer.flushed
  ensures [released] {C18} held(p.mutex) == 0
  ensures [flushed] {C15} imp(err == nil, p.writer.flushed == p.writer.out)

func log.(*PersistentFile).Write(p, b) (n, err)
  props C18, C15
  inv log.PersistentFile
  requires held(p.mutex) == 0
  modifies p.writer.out, ghost("run.written", nil)
  ghost ghost("run.written", nil) := old(ghost("run.written", nil)) + 1
  ensures [count] {C15} ghost("run.written", nil) == old(ghost("run.written", nil)) + 1
  ensures [released] {C18} held(p.mutex) == 0
  ensures [accepted] {C15} imp(err == nil, n == len(b) && p.writer.out == old(p.writer.out) + bytestr(b))
  ensures [short] {C15} imp(err != nil, 0 <= n && n < len(b))

func log.(*PersistentFile).WriteByte(p, c) (err)
  props C18
  inv log.PersistentFile
  requires held(p.mutex) == 0
  modifies p.writer.out
  ensures [released] held(p.mutex) == 0

func log.(*PersistentFile).WriteString(p, s) (n, err)
  props C18
  inv log.PersistentFile
  requires held(p.mutex) == 0
  modifies p.writer.out
  ensures [released] held(p.mutex) == 0

func concurrency.(*eventBus).Publish(e, name, data, err) (f)
  props C18
  inv concurrency.eventBus
  requires held(e.mutex) == 0
  ensures [released] held(e.mutex) == 0

func concurrency.(*eventBus).PublishWithSource(e, name, source, data, err) (f)
  props C18
  inv concurrency.eventBus
  requires held(e.mutex) == 0
  ensures [released] held(e.mutex) == 0

func concurrency.(*eventBus).Subscribe(e, name, subscriber) (r, err)
  props C18
  inv concurrency.eventBus
  requires held(e.mutex) == 0
  modifies all concurrency.topic.subscribers*
  ensures [released] held(e.mutex) == 0

func concurrency.(*eventBus).SubscribeWithOptions(e, name, subscriber, size, duration) (r, err)
  props C18
  inv concurrency.eventBus
  requires held(e.mutex) == 0
  modifies all concurrency.topic.subscribers*
  ensures [released] held(e.mutex) == 0

func concurrency.(*eventBus).NewTopic(e, name) (ok)
  props C18
  inv concurrency.eventBus
  requires held(e.mutex) == 0
  modifies content(e.topics)
  ensures [released] held(e.mutex) == 0

func concurrency.(*eventBus).RemoveTopic(e, name) (ok)
  props C18
  inv concurrency.eventBus
  requires held(e.mutex) == 0
  modifies content(e.topics)
  ensures [released] held(e.mutex) == 0

func concurrency.(*eventBus).ExistTopic(e, name) (ok)
  props C18
  inv concurrency.eventBus
  requires held(e.mutex) == 0
  ensures [released] held(e.mutex) == 0

func replication.(*master).stop(m)
  props C18
  inv replication.master, log.PersistentFile
  requires held(m.mutex) == 0
  modifies m.shutdown
  ensures [released] held(m.mutex) == 0

func replication.(*master).handleConn(m, conn)
  props C18
  inv replication.master, log.PersistentFile
  requires held(m.mutex) == 0 && conn != nil
  requires imp(m.file != nil, held(m.file.mutex) == 0)
  modifies content(m.conn), all bufio.Writer.$flushed
  ensures [released] held(m.mutex) == 0
