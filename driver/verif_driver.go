package db

import (
	"github.com/lxdlam/vertex/pkg/command"
	"github.com/lxdlam/vertex/pkg/container"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/protocol"
)

// Verification driver: one function per command, so that each command has a
// contract from its request to its reply. It only calls the real code and is
// never part of a build of the server (it is overlaid when gvc loads the
// program).

func verifRun(d *db, name string, a []protocol.RedisObject) (protocol.RedisObject, error) {
	c, err := command.NewCommand(name, 0, a)
	if err != nil || c == nil {
		return nil, err
	}
	d.ExecuteCommand(c)
	return c.Result()
}

func verif_set(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "set", a)
}

func verif_get(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "get", a)
}

func verif_mset(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "mset", a)
}

func verif_mget(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "mget", a)
}

func verif_exists(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "exists", a)
}

func verif_strlen(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "strlen", a)
}

func verif_append(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "append", a)
}

func verif_incr(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "incr", a)
}

func verif_incrby(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "incrby", a)
}

func verif_decr(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "decr", a)
}

func verif_decrby(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "decrby", a)
}

func verif_getrange(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "getrange", a)
}

func verif_lpop(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "lpop", a)
}

func verif_rpop(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "rpop", a)
}

func verif_lindex(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "lindex", a)
}

func verif_linsert(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "linsert", a)
}

func verif_llen(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "llen", a)
}

func verif_lpush(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "lpush", a)
}

func verif_rpush(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "rpush", a)
}

func verif_lrange(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "lrange", a)
}

func verif_ltrim(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "ltrim", a)
}

func verif_lrem(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "lrem", a)
}

func verif_lset(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "lset", a)
}

func verif_hset(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "hset", a)
}

func verif_hget(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "hget", a)
}

func verif_hexists(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "hexists", a)
}

func verif_hdel(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "hdel", a)
}

func verif_hmget(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "hmget", a)
}

func verif_hkeys(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "hkeys", a)
}

func verif_hvals(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "hvals", a)
}

func verif_hgetall(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "hgetall", a)
}

func verif_hstrlen(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "hstrlen", a)
}

func verif_hlen(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "hlen", a)
}

func verif_sadd(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "sadd", a)
}

func verif_srem(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "srem", a)
}

func verif_sismember(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "sismember", a)
}

func verif_smembers(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "smembers", a)
}

func verif_srandmember(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "srandmember", a)
}

func verif_spop(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "spop", a)
}

func verif_sdiff(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "sdiff", a)
}

func verif_sinter(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "sinter", a)
}

func verif_sunion(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "sunion", a)
}

func verif_scard(d *db, a []protocol.RedisObject) (protocol.RedisObject, error) {
	return verifRun(d, "scard", a)
}

func verif_shape(name string, a []protocol.RedisObject) (t command.CommandType, kind container.ContainerType, create bool, keys []string, err error) {
	c, err := command.NewCommand(name, 0, a)
	if err != nil {
		return 0, 0, false, nil, err
	}
	return c.Type(), c.TargetContainerType(), c.ShouldCreate(), c.Keys(), nil
}

func verif_replay(name string, index int, objects []protocol.RedisObject) []protocol.RedisObject {
	return convertArguments(log.NewLog(name, index, objects).Arguments)
}
