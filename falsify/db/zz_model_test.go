package db

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/lxdlam/vertex/pkg/command"
	"github.com/lxdlam/vertex/pkg/container"
	"github.com/lxdlam/vertex/pkg/protocol"
	zz "github.com/lxdlam/vertex/pkg/zzfalsify"
)

// The reference model of the database: four independent maps.
type zmodel struct {
	str  map[string]string
	list map[string][]string
	hash map[string]map[string]string
	set  map[string]map[string]bool
}

func newZ() *zmodel {
	return &zmodel{map[string]string{}, map[string][]string{}, map[string]map[string]string{}, map[string]map[string]bool{}}
}

func bulk(s string) string { return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n" }
func num(n int64) string   { return ":" + strconv.FormatInt(n, 10) + "\r\n" }
func arr(a []string) string {
	return "*" + strconv.Itoa(len(a)) + "\r\n" + strings.Join(a, "")
}

const (
	zNull    = "$-1\r\n"
	zNullArr = "*-1\r\n"
	zOK      = "+OK\r\n"
	eArg     = "!arg"
	eCmd     = "!cmd"
	eInt     = "!int"
	eKey     = "!key"
	eRange   = "!range"
	eAny     = "!any"
)

func parseI(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// posOf resolves an index; -1 when outside.
func posOf(i int64, n int) int {
	if i < 0 {
		if i < -int64(n) {
			return -1
		}
		i += int64(n)
	}
	if i >= int64(n) {
		return -1
	}
	return int(i)
}

// span resolves a range; ok is false when nothing is selected.
func span(l, r int64, n int) (int, int, bool) {
	if l < 0 {
		if l < -int64(n) {
			return 0, 0, false
		}
		l += int64(n)
	}
	if r < 0 {
		if r < -int64(n) {
			return 0, 0, false
		}
		r += int64(n)
	}
	if r >= int64(n) {
		r = int64(n) - 1
	}
	if l >= int64(n) || l > r {
		return 0, 0, false
	}
	return int(l), int(r), true
}

func sorted(a []string) []string { sort.Strings(a); return a }

// expect is what the model answers; random picks carry a check instead.
type expect struct {
	text  string
	check func(got []string) string // got: elements of the reply
	multi bool                      // compare elements as a multiset of groups of width w
	w     int
}

func one(s string) expect { return expect{text: s} }

func (z *zmodel) apply(name string, a []string) expect {
	n := len(a)
	switch strings.ToLower(name) {
	case "set":
		if n != 2 {
			return one(eArg)
		}
		z.str[a[0]] = a[1]
		return one(zOK)
	case "get":
		if n != 1 {
			return one(eArg)
		}
		if v, ok := z.str[a[0]]; ok {
			return one(bulk(v))
		}
		return one(zNull)
	case "mset":
		if n == 0 {
			return one(eAny)
		}
		if n%2 != 0 {
			return one(eArg)
		}
		for i := 0; i < n; i += 2 {
			z.str[a[i]] = a[i+1]
		}
		return one(zOK)
	case "mget":
		if n == 0 {
			return one(eArg)
		}
		var r []string
		for _, k := range a {
			if v, ok := z.str[k]; ok {
				r = append(r, bulk(v))
			} else {
				r = append(r, zNull)
			}
		}
		return one(arr(r))
	case "exists":
		if n == 0 {
			return one(eArg)
		}
		c := 0
		for _, k := range a {
			if _, ok := z.str[k]; ok {
				c++
			}
		}
		return one(num(int64(c)))
	case "strlen":
		if n != 1 {
			return one(eArg)
		}
		return one(num(int64(len(z.str[a[0]]))))
	case "append":
		if n != 2 {
			return one(eArg)
		}
		z.str[a[0]] += a[1]
		return one(num(int64(len(z.str[a[0]]))))
	case "incr", "incrby", "decr", "decrby":
		lower := strings.ToLower(name)
		if n == 0 || (n > 2 && strings.HasSuffix(lower, "by")) {
			return one(eArg)
		}
		amount := int64(1)
		if strings.HasSuffix(lower, "by") && n == 2 {
			v, ok := parseI(a[1])
			if !ok {
				return one(eAny)
			}
			amount = v
		}
		s, ok := z.str[a[0]]
		if !ok {
			return one(eKey)
		}
		v, ok := parseI(s)
		if !ok {
			return one(eInt)
		}
		var r int64
		if lower[0] == 'i' {
			r = v + amount
			if (amount > 0 && r < v) || (amount < 0 && r > v) {
				return one(eInt)
			}
		} else {
			r = v - amount
			if (amount > 0 && r > v) || (amount < 0 && r < v) {
				return one(eInt)
			}
		}
		z.str[a[0]] = strconv.FormatInt(r, 10)
		return one(num(r))
	case "getrange":
		if n != 3 {
			return one(eArg)
		}
		l, ok1 := parseI(a[1])
		r, ok2 := parseI(a[2])
		if !ok1 || !ok2 {
			return one(eArg)
		}
		s := z.str[a[0]]
		if x, y, ok := span(l, r, len(s)); ok {
			return one(bulk(s[x : y+1]))
		}
		return one(bulk(""))

	case "lpush", "rpush":
		if n < 2 {
			return one(eArg)
		}
		if a[0] == "" {
			return one(eAny)
		}
		for _, v := range a[1:] {
			if strings.ToLower(name) == "lpush" {
				z.list[a[0]] = append([]string{v}, z.list[a[0]]...)
			} else {
				z.list[a[0]] = append(append([]string{}, z.list[a[0]]...), v)
			}
		}
		return one(num(int64(len(z.list[a[0]]))))
	case "lpop", "rpop":
		if n != 1 {
			return one(eArg)
		}
		l := z.list[a[0]]
		if len(l) == 0 {
			return one(zNull)
		}
		if strings.ToLower(name) == "lpop" {
			z.list[a[0]] = l[1:]
			return one(bulk(l[0]))
		}
		z.list[a[0]] = l[:len(l)-1]
		return one(bulk(l[len(l)-1]))
	case "llen":
		if n != 1 {
			return one(eArg)
		}
		return one(num(int64(len(z.list[a[0]]))))
	case "lindex":
		if n != 2 {
			return one(eArg)
		}
		i, ok := parseI(a[1])
		if !ok {
			return one(eArg)
		}
		l := z.list[a[0]]
		if p := posOf(i, len(l)); p >= 0 {
			return one(bulk(l[p]))
		}
		return one(zNull)
	case "lrange":
		if n != 3 {
			return one(eArg)
		}
		x, ok1 := parseI(a[1])
		y, ok2 := parseI(a[2])
		if !ok1 || !ok2 {
			return one(eArg)
		}
		l := z.list[a[0]]
		if p, q, ok := span(x, y, len(l)); ok {
			var r []string
			for _, v := range l[p : q+1] {
				r = append(r, bulk(v))
			}
			return one(arr(r))
		}
		return one(zNullArr)
	case "lset":
		if n != 3 {
			return one(eArg)
		}
		i, ok := parseI(a[1])
		if !ok {
			return one(eArg)
		}
		l, ok := z.list[a[0]]
		if !ok {
			return one(eKey)
		}
		p := posOf(i, len(l))
		if p < 0 {
			return one(eRange)
		}
		c := append([]string{}, l...)
		c[p] = a[2]
		z.list[a[0]] = c
		return one(zOK)
	case "lrem":
		if n != 3 {
			return one(eArg)
		}
		c, ok := parseI(a[1])
		if !ok {
			return one(eArg)
		}
		l := z.list[a[0]]
		limit := len(l)
		if c > 0 && c < int64(limit) {
			limit = int(c)
		}
		if c < 0 && c > -int64(limit) {
			limit = int(-c)
		}
		drop := map[int]bool{}
		if c >= 0 {
			for i := 0; i < len(l) && len(drop) < limit; i++ {
				if l[i] == a[2] {
					drop[i] = true
				}
			}
		} else {
			for i := len(l) - 1; i >= 0 && len(drop) < limit; i-- {
				if l[i] == a[2] {
					drop[i] = true
				}
			}
		}
		var r []string
		for i, v := range l {
			if !drop[i] {
				r = append(r, v)
			}
		}
		if _, ok := z.list[a[0]]; ok {
			z.list[a[0]] = r
		}
		return one(num(int64(len(drop))))
	case "ltrim":
		if n != 3 {
			return one(eArg)
		}
		x, ok1 := parseI(a[1])
		y, ok2 := parseI(a[2])
		if !ok1 || !ok2 {
			return one(eArg)
		}
		l := z.list[a[0]]
		if p, q, ok := span(x, y, len(l)); ok {
			z.list[a[0]] = l[p : q+1]
		}
		return one(zOK)
	case "linsert":
		if n != 4 {
			return one(eArg)
		}
		w := strings.ToLower(a[1])
		if w != "before" && w != "after" {
			return one(eArg)
		}
		l, ok := z.list[a[0]]
		if !ok {
			return one(num(0))
		}
		for i, v := range l {
			if v == a[2] {
				p := i
				if w == "after" {
					p++
				}
				r := append([]string{}, l[:p]...)
				r = append(r, a[3])
				r = append(r, l[p:]...)
				z.list[a[0]] = r
				return one(num(int64(len(r))))
			}
		}
		return one(num(-1))

	case "hset":
		if n < 2 || n%2 != 1 {
			return one(eArg)
		}
		if a[0] == "" {
			return one(eAny)
		}
		h := z.hash[a[0]]
		if h == nil {
			h = map[string]string{}
			z.hash[a[0]] = h
		}
		before := len(h)
		for i := 1; i < n; i += 2 {
			h[a[i]] = a[i+1]
		}
		return one(num(int64(len(h) - before)))
	case "hget", "hexists", "hstrlen":
		if n != 2 {
			return one(eArg)
		}
		h, ok := z.hash[a[0]]
		v, has := h[a[1]]
		if ok && a[1] == "" {
			return one(eArg)
		}
		switch strings.ToLower(name) {
		case "hget":
			if has {
				return one(bulk(v))
			}
			return one(zNull)
		case "hexists":
			if has {
				return one(num(1))
			}
			return one(num(0))
		}
		return one(num(int64(len(v))))
	case "hmget":
		if n < 2 {
			return one(eArg)
		}
		var r []string
		for _, f := range a[1:] {
			if v, ok := z.hash[a[0]][f]; ok {
				r = append(r, bulk(v))
			} else {
				r = append(r, zNull)
			}
		}
		return one(arr(r))
	case "hdel":
		if n < 2 {
			return one(eArg)
		}
		h := z.hash[a[0]]
		before := len(h)
		for _, f := range a[1:] {
			delete(h, f)
		}
		return one(num(int64(before - len(h))))
	case "hlen":
		if n != 1 {
			return one(eArg)
		}
		return one(num(int64(len(z.hash[a[0]]))))
	case "hkeys", "hvals", "hgetall":
		if n != 1 {
			return one(eArg)
		}
		h, ok := z.hash[a[0]]
		if !ok {
			return one(zNullArr)
		}
		var r []string
		w := 1
		for k, v := range h {
			switch strings.ToLower(name) {
			case "hkeys":
				r = append(r, bulk(k))
			case "hvals":
				r = append(r, bulk(v))
			default:
				r = append(r, bulk(k)+bulk(v))
				w = 2
			}
		}
		return expect{text: arr(sorted(r)), multi: true, w: w}

	case "sadd":
		if n < 2 {
			return one(eArg)
		}
		if a[0] == "" {
			return one(eAny)
		}
		s := z.set[a[0]]
		if s == nil {
			s = map[string]bool{}
			z.set[a[0]] = s
		}
		before := len(s)
		for _, v := range a[1:] {
			s[v] = true
		}
		return one(num(int64(len(s) - before)))
	case "srem":
		if n < 2 {
			return one(eArg)
		}
		if a[0] == "" {
			return one(eAny)
		}
		s := z.set[a[0]]
		if s == nil {
			z.set[a[0]] = map[string]bool{}
		}
		before := len(s)
		for _, v := range a[1:] {
			delete(s, v)
		}
		return one(num(int64(before - len(s))))
	case "sismember":
		if n != 2 {
			return one(eArg)
		}
		s, ok := z.set[a[0]]
		if ok && a[1] == "" {
			return one(eArg)
		}
		if s[a[1]] {
			return one(num(1))
		}
		return one(num(0))
	case "scard":
		if n != 1 {
			return one(eArg)
		}
		return one(num(int64(len(z.set[a[0]]))))
	case "smembers":
		if n != 1 {
			return one(eArg)
		}
		s, ok := z.set[a[0]]
		if !ok {
			return one(zNullArr)
		}
		var r []string
		for k := range s {
			r = append(r, bulk(k))
		}
		return expect{text: arr(sorted(r)), multi: true, w: 1}
	case "srandmember", "spop":
		if n < 1 || n > 2 {
			return one(eArg)
		}
		count := int64(1)
		if n == 2 {
			c, ok := parseI(a[1])
			if !ok {
				return one(eArg)
			}
			count = c
		}
		s := z.set[a[0]]
		want := len(s)
		if count >= 0 && count < int64(want) {
			want = int(count)
		}
		if count < 0 && count > -int64(want) {
			want = int(-count)
		}
		if want == 0 {
			if n == 1 {
				return one(zNull)
			}
			return one(zNullArr)
		}
		pop := strings.ToLower(name) == "spop"
		return expect{check: func(got []string) string {
			if len(got) != want {
				return fmt.Sprintf("%d members picked, want %d", len(got), want)
			}
			seen := map[string]bool{}
			for _, g := range got {
				if !s[g] || seen[g] {
					return fmt.Sprintf("picked %q, which is no member or was picked twice", g)
				}
				seen[g] = true
			}
			if pop {
				for g := range seen {
					delete(s, g)
				}
			}
			return ""
		}}
	case "sdiff", "sinter", "sunion":
		if n == 0 {
			return one(eArg)
		}
		r := map[string]bool{}
		for k := range z.set[a[0]] {
			r[k] = true
		}
		for _, o := range a[1:] {
			switch strings.ToLower(name) {
			case "sdiff":
				for k := range z.set[o] {
					delete(r, k)
				}
			case "sunion":
				for k := range z.set[o] {
					r[k] = true
				}
			default:
				for k := range r {
					if !z.set[o][k] {
						delete(r, k)
					}
				}
			}
		}
		if len(r) == 0 {
			return one(zNullArr)
		}
		var l []string
		for k := range r {
			l = append(l, bulk(k))
		}
		return expect{text: arr(sorted(l)), multi: true, w: 1}
	}
	return one(eCmd)
}

var zFamilies = map[string][]string{
	"str":   {"set", "get", "mset", "mget", "exists", "strlen", "append", "getrange", "set", "append"},
	"count": {"set", "get", "incr", "incrby", "decr", "decrby", "incrby", "decrby", "strlen", "append"},
	"list":  {"lpush", "rpush", "lpop", "rpop", "llen", "lindex", "lrange", "lpush", "rpush"},
	"edit":  {"lpush", "rpush", "lset", "lrem", "ltrim", "linsert", "linsert", "rpush"},
	"hash":  {"hset", "hget", "hdel", "hmget", "hexists", "hkeys", "hvals", "hgetall", "hstrlen", "hlen", "hset"},
	"set":   {"sadd", "srem", "sismember", "smembers", "srandmember", "spop", "scard", "sadd"},
	"alg":   {"sadd", "srem", "sdiff", "sinter", "sunion", "sadd"},
}

var zTypes = map[string]command.CommandType{}
var zKinds = map[string]container.ContainerType{}

func init() {
	for _, n := range []string{"set", "mset", "append", "incr", "incrby", "decr", "decrby", "lpop", "rpop", "linsert", "lpush", "rpush", "ltrim", "lrem", "lset", "hset", "hdel", "sadd", "srem", "spop"} {
		zTypes[n] = command.ModifyCommandType
	}
	for _, n := range []string{"get", "mget", "exists", "strlen", "getrange", "lindex", "llen", "lrange", "hget", "hexists", "hmget", "hkeys", "hvals", "hgetall", "hstrlen", "hlen", "sismember", "smembers", "srandmember", "sdiff", "sinter", "sunion", "scard"} {
		zTypes[n] = command.AccessCommandType
	}
	for n := range zTypes {
		switch n[0] {
		case 'l', 'r':
			zKinds[n] = container.LinkedListType
		case 'h':
			zKinds[n] = container.HashType
		default:
			zKinds[n] = container.SetType
		}
	}
	for _, n := range []string{"set", "get", "mset", "mget", "exists", "strlen", "append", "incr", "incrby", "decr", "decrby", "getrange"} {
		zKinds[n] = container.GlobalType
	}
}

func zNames() []string {
	var r []string
	for n := range zTypes {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func class(err error) string {
	switch {
	case errors.Is(err, command.ErrCommandNotExist):
		return eCmd
	case errors.Is(err, command.ErrArgumentInvalid):
		return eArg
	case errors.Is(err, container.ErrNotAInt):
		return eInt
	case errors.Is(err, command.ErrNoSuchKey):
		return eKey
	case errors.Is(err, container.ErrOutOfRange):
		return eRange
	}
	return eAny
}

func wrap(args []string, s *zz.Search) []protocol.RedisObject {
	r := []protocol.RedisObject{}
	for _, a := range args {
		if s != nil && s.Rnd.Intn(6) == 0 {
			r = append(r, protocol.NewSimpleRedisString(a))
		} else {
			r = append(r, protocol.NewBulkRedisString(a))
		}
	}
	return r
}

// elements splits an array reply or a single bulk reply into its strings.
func elements(o protocol.RedisObject) []string {
	switch x := o.(type) {
	case protocol.RedisArray:
		var r []string
		for _, e := range x.Data() {
			if t, ok := e.(protocol.RedisString); ok {
				r = append(r, t.Data())
			}
		}
		return r
	case protocol.RedisString:
		return []string{x.Data()}
	}
	return nil
}

func reply(o protocol.RedisObject, err error, e expect) string {
	if err != nil {
		return class(err)
	}
	if o == nil {
		return "no reply"
	}
	if e.multi {
		var r []string
		el := elements(o)
		if a, ok := o.(protocol.RedisArray); ok && len(el) == len(a.Data()) && len(el) > 0 && len(el)%e.w == 0 {
			for i := 0; i < len(el); i += e.w {
				g := ""
				for j := 0; j < e.w; j++ {
					g += bulk(el[i+j])
				}
				r = append(r, g)
			}
			return arr(sorted(r))
		}
	}
	return o.String()
}

type zrun struct {
	s     *zz.Search
	d     DB
	z     *zmodel
	trace [][]string
	keys  []string
	vals  []string
}

func newRun(s *zz.Search) *zrun {
	r := &zrun{s: s, d: NewDB(0), z: newZ()}
	n := 2 + s.Rnd.Intn(3)
	for i := 0; i < n; i++ {
		r.keys = append(r.keys, s.Str())
	}
	n = 2 + s.Rnd.Intn(4)
	for i := 0; i < n; i++ {
		r.vals = append(r.vals, s.Str())
	}
	if s.Rnd.Intn(3) == 0 {
		r.vals = append(r.vals, r.keys...)
	}
	return r
}

func (r *zrun) key() string { return r.keys[r.s.Rnd.Intn(len(r.keys))] }
func (r *zrun) val() string {
	if r.s.Rnd.Intn(12) == 0 {
		return r.s.Str()
	}
	return r.vals[r.s.Rnd.Intn(len(r.vals))]
}
func (r *zrun) many(n int) []string {
	var a []string
	if r.s.Rnd.Intn(40) == 0 {
		n *= 20
	}
	for i := r.s.Rnd.Intn(n); i >= 0; i-- {
		a = append(a, r.val())
	}
	return a
}
func (r *zrun) int() string {
	if r.s.Rnd.Intn(25) == 0 {
		return []string{"x", "", "1.5", " 1", "9223372036854775808", "+1", "-0", "007"}[r.s.Rnd.Intn(8)]
	}
	return strconv.FormatInt(r.s.Int(6), 10)
}

func (r *zrun) args(name string) []string {
	k := r.key()
	s := r.s
	switch name {
	case "set", "append":
		return []string{k, r.val()}
	case "mset":
		var a []string
		for i := s.Rnd.Intn(4); i >= 0; i-- {
			a = append(a, r.key(), r.val())
		}
		return a
	case "mget", "exists", "sdiff", "sinter", "sunion":
		var a []string
		for i := s.Rnd.Intn(4); i >= 0; i-- {
			a = append(a, r.key())
		}
		return a
	case "incrby", "decrby", "lindex":
		return []string{k, r.int()}
	case "getrange", "lrange", "ltrim":
		return []string{k, r.int(), r.int()}
	case "lset", "lrem":
		return []string{k, r.int(), r.val()}
	case "linsert":
		return []string{k, []string{"before", "after", "AFTER", "Before"}[s.Rnd.Intn(4)], r.val(), r.val()}
	case "lpush", "rpush", "hmget", "hdel", "sadd", "srem":
		return append([]string{k}, r.many(5)...)
	case "hset":
		a := []string{k}
		for i := s.Rnd.Intn(4); i >= 0; i-- {
			a = append(a, r.val(), r.val())
		}
		return a
	case "hget", "hexists", "hstrlen", "sismember":
		return []string{k, r.val()}
	case "srandmember", "spop":
		if s.Rnd.Intn(2) == 0 {
			return []string{k, r.int()}
		}
	}
	return []string{k}
}

// do runs one request on the code and on the model and compares.
func (r *zrun) do(name string, args []string) {
	r.trace = append(r.trace, append([]string{name}, args...))
	c, err := command.NewCommand(name, 0, wrap(args, r.s))
	var o protocol.RedisObject
	if err == nil {
		r.d.ExecuteCommand(c)
		o, err = c.Result()
	}
	e := r.z.apply(name, args)
	if e.check != nil {
		if err != nil {
			r.s.Found("request failed: "+err.Error(), r.trace)
		}
		if m := e.check(elements(o)); m != "" {
			r.s.Found(m, r.trace)
		}
		return
	}
	got := reply(o, err, e)
	if e.text == eAny && strings.HasPrefix(got, "!") {
		return
	}
	if got != e.text {
		r.s.Found(fmt.Sprintf("last request replied %q, want %q", got, e.text), r.trace)
	}
}

// dump compares everything that can be read with the model.
func (r *zrun) dump() {
	keep := r.trace
	ks := map[string]bool{}
	for _, k := range r.keys {
		ks[k] = true
	}
	for k := range ks {
		for _, n := range []string{"get", "strlen", "llen", "hlen", "hgetall", "hkeys", "hvals", "scard", "smembers"} {
			r.trace = append(keep[:len(keep):len(keep)], []string{"(then)"})
			r.do(n, []string{k})
		}
		r.trace = append(keep[:len(keep):len(keep)], []string{"(then)"})
		r.do("lrange", []string{k, "0", "-1"})
		for i := range r.z.list[k] {
			if i > 6 {
				break
			}
			r.do("lindex", []string{k, strconv.Itoa(-1 - i)})
		}
		for f := range r.z.hash[k] {
			r.do("hmget", []string{k, f})
		}
		for f := range r.z.set[k] {
			if f != "" {
				r.do("sismember", []string{k, f})
			}
		}
	}
	r.trace = keep
}

func (r *zrun) mixCase(n string) string {
	if r.s.Rnd.Intn(4) != 0 {
		return n
	}
	b := []byte(n)
	for i := range b {
		if r.s.Rnd.Intn(2) == 0 {
			b[i] -= 32
		}
	}
	return string(b)
}

func histories(t *testing.T, fams ...string) {
	s := zz.New(t)
	for s.More() {
		var r *zrun
		s.Guard(func() interface{} { return r.trace }, func() {
			r = newRun(s)
			if fams[0] == "count" {
				for i := range r.vals {
					if s.Rnd.Intn(2) == 0 {
						r.vals[i] = strconv.FormatInt(s.Int(20), 10)
					}
				}
			}
			steps := 1 + s.Rnd.Intn(25)
			for i := 0; i < steps; i++ {
				f := zFamilies[fams[s.Rnd.Intn(len(fams))]]
				n := f[s.Rnd.Intn(len(f))]
				r.do(n, r.args(n))
				if s.Rnd.Intn(4) == 0 {
					r.dump()
				}
			}
			r.dump()
		})
	}
}

func TestFalsify_C03(t *testing.T) { histories(t, "str", "str", "str", "count") }
func TestFalsify_C04(t *testing.T) { histories(t, "count") }
func TestFalsify_C05(t *testing.T) { histories(t, "list", "list", "edit") }
func TestFalsify_C06(t *testing.T) { histories(t, "edit", "edit", "list") }
func TestFalsify_C07(t *testing.T) { histories(t, "hash") }
func TestFalsify_C08(t *testing.T) { histories(t, "set", "set", "alg") }
func TestFalsify_C09(t *testing.T) { histories(t, "alg", "alg", "set") }
func TestFalsify_C19(t *testing.T) { histories(t, "str", "list", "hash", "set", "alg", "count", "edit") }

// odd objects as arguments
func odd(s *zz.Search) protocol.RedisObject {
	switch s.Rnd.Intn(6) {
	case 0:
		return protocol.NewRedisInteger(s.Int(5))
	case 1:
		return protocol.NewRedisArray(nil)
	case 2:
		return protocol.NewNullRedisArray()
	case 3:
		return protocol.NewRedisArray([]protocol.RedisObject{protocol.NewBulkRedisString("a")})
	case 4:
		return nil
	}
	return protocol.NewRedisInteger(0)
}

func TestFalsify_C10(t *testing.T) {
	s := zz.New(t)
	names := zNames()
	for s.More() {
		var r *zrun
		var last []protocol.RedisObject
		s.Guard(func() interface{} { return fmt.Sprintf("%q then %v", r.trace, last) }, func() {
			r = newRun(s)
			r.keys = append(r.keys, "", "k")
			steps := 1 + s.Rnd.Intn(25)
			for i := 0; i < steps; i++ {
				n := names[s.Rnd.Intn(len(names))]
				switch s.Rnd.Intn(3) {
				case 0: // a good request
					r.do(n, r.args(n))
				case 1: // wrong number of arguments, or other strings
					a := r.args(n)
					switch s.Rnd.Intn(5) {
					case 0:
						a = append(a, r.val())
					case 1:
						a = a[:s.Rnd.Intn(len(a)+1)]
					case 2:
						a[s.Rnd.Intn(len(a))] = ""
					case 3:
						a[s.Rnd.Intn(len(a))] = r.int()
					case 4:
						a[s.Rnd.Intn(len(a))] = r.s.Str()
					}
					if s.Rnd.Intn(8) == 0 {
						n = s.Str()
					}
					r.do(n, a)
				default: // something that is no string
					args := wrap(r.args(n), s)
					p := s.Rnd.Intn(len(args))
					args[p] = odd(s)
					last = args
					c, err := command.NewCommand(n, 0, args)
					if err == nil && p > 0 && (n == "incr" || n == "decr") {
						r.d.ExecuteCommand(c)
						continue
					}
					if err == nil {
						r.d.ExecuteCommand(c)
						_, err = c.Result()
					}
					if err == nil {
						s.Found(fmt.Sprintf("%s with a non-string argument at %d was not rejected", n, p), r.trace)
					}
					r.dump()
				}
				if s.Rnd.Intn(4) == 0 {
					r.dump()
				}
			}
			r.dump()
		})
	}
}

func TestFalsify_C11(t *testing.T) {
	s := zz.New(t)
	names := zNames()
	for s.More() {
		var r *zrun
		s.Guard(func() interface{} { return r.trace }, func() {
			r = newRun(s)
			for i := 0; i < 20; i++ {
				n := names[s.Rnd.Intn(len(names))]
				a := r.args(n)
				name := r.mixCase(n)
				if s.Rnd.Intn(6) == 0 {
					name = s.Str()
					if s.Rnd.Intn(2) == 0 {
						name = n + s.Str()
					}
				}
				low := strings.ToLower(name)
				c, err := command.NewCommand(name, 3, wrap(a, nil))
				in := append([]string{name}, a...)
				if want, ok := zTypes[low]; ok {
					if err == nil {
						if c.Type() != want {
							s.Found(fmt.Sprintf("%s has type %d, want %d", low, c.Type(), want), in)
						}
						if c.TargetContainerType() != zKinds[low] {
							s.Found(fmt.Sprintf("%s addresses container type %d, want %d", low, c.TargetContainerType(), zKinds[low]), in)
						}
						if c.Cluster() != 3 {
							s.Found("the command has another database index", in)
						}
						var keys []string
						switch low {
						case "mset":
							for j := 0; j < len(a); j += 2 {
								keys = append(keys, a[j])
							}
						case "mget", "exists", "sdiff", "sinter", "sunion":
							keys = a
						default:
							keys = a[:1]
						}
						if fmt.Sprintf("%q", c.Keys()) != fmt.Sprintf("%q", keys) {
							s.Found(fmt.Sprintf("%s is addressed to the keys %q, want %q", low, c.Keys(), keys), in)
						}
					}
				} else if err == nil || !errors.Is(err, command.ErrCommandNotExist) {
					s.Found("an unknown command name is accepted", in)
				}
				r.do(name, a)
			}
			r.dump()
		})
	}
}
