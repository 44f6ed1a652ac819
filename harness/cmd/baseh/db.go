package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	stdlog "log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/icon-project/btp/common/db"

	"verifharness/internal/mon"
)

func init() {
	props["D01"] = func(c *mon.Ctx) {
		storeQuiet()
		c.RunP("mapdb", c.N(1500, 60000), 8, storeHistory("mapdb"))
		c.RunP("goleveldb", c.N(200, 5000), 8, storeHistory("goleveldb"))
		c.RunP("badgerdb", c.N(60, 1500), 4, storeHistory("badgerdb"))
		c.RunP("killed-goleveldb", c.N(24, 400), 6, storeKilled("goleveldb"))
		c.RunP("killed-badgerdb", c.N(8, 150), 4, storeKilled("badgerdb"))
		c.RunP("unknown", c.N(40, 400), 4, storeUnknown)
	}
	props["D02"] = func(c *mon.Ctx) {
		storeQuiet()
		c.RunP("layers", c.N(6000, 300000), 8, layerHistory("mapdb"))
		c.RunP("layers-goleveldb", c.N(60, 2000), 8, layerHistory("goleveldb"))
		c.RunP("failing", c.N(2000, 100000), 8, layerFailing)
	}
	props["D03"] = func(c *mon.Ctx) {
		storeQuiet()
		c.RunP("mapdb", c.N(500, 20000), 4, storeParallel("mapdb", false))
		c.RunP("goleveldb", c.N(40, 1000), 4, storeParallel("goleveldb", false))
		c.RunP("badgerdb", c.N(10, 300), 4, storeParallel("badgerdb", false))
		c.RunP("layer", c.N(500, 20000), 4, storeParallel("mapdb", true))
	}
}

func storeQuiet() {
	stdlog.SetOutput(io.Discard)
}

func scratch() string {
	base := os.Getenv("VERIF_WORK")
	d, err := os.MkdirTemp(base, "db")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d
}

var bucketIDs = []db.BucketID{db.MerkleTrie, db.BytesByHash, db.TransactionLocatorByHash, db.BlockHeaderHashByHeight,
	db.BlockV1ByHash, db.ReceiptV1ByHash, db.ChainProperty}

// storeKey makes a key for a bucket. The bucket without a name is for hashes,
// whose keys are 32 bytes long; elsewhere keys of 31 bytes would not be told
// apart from those.
func storeKey(r *rand.Rand, id db.BucketID) []byte {
	if id == "" {
		b := make([]byte, 32)
		if r.Intn(4) == 0 {
			b[0] = []byte("STHBRC")[r.Intn(6)]
		}
		b[31] = byte(r.Intn(5))
		return b
	}
	switch r.Intn(6) {
	case 0:
		return []byte{byte(r.Intn(3))}
	case 1:
		return []byte{0, byte(r.Intn(3))}
	case 2:
		return []byte{0xff, 0xff, byte(r.Intn(2))}
	case 3:
		b := make([]byte, 32)
		b[r.Intn(2)*31] = byte(r.Intn(3))
		return b
	case 4:
		return []byte(string([]byte("STHBRC")[r.Intn(6)]) + "k")
	}
	return bytes.Repeat([]byte{7}, 40+r.Intn(2))
}

func storeValue(r *rand.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		return []byte{}
	case 1:
		return []byte{0}
	case 2:
		b := make([]byte, 4096+r.Intn(3000))
		r.Read(b)
		return b
	}
	b := make([]byte, 1+r.Intn(40))
	r.Read(b)
	return b
}

func sid(id db.BucketID, key []byte) string { return string(id) + "|" + string(key) }

// checkStore compares every key of the model, and keys that were never set.
func checkStore(k *mon.Case, kind string, get func(db.BucketID) db.Bucket, model map[string][]byte, when string) {
	ids := append([]db.BucketID(nil), bucketIDs...)
	for n := 0; n < 12; n++ {
		id := ids[k.Intn(len(ids))]
		key := storeKey(k.Rand, id)
		oneKey(k, kind, get(id), id, key, model, when)
	}
	names := make([]string, 0, len(model))
	for s := range model {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		i := strings.Index(s, "|")
		id, key := db.BucketID(s[:i]), []byte(s[i+1:])
		oneKey(k, kind, get(id), id, key, model, when)
	}
}

func oneKey(k *mon.Case, kind string, bk db.Bucket, id db.BucketID, key []byte, model map[string][]byte, when string) {
	want, has := model[sid(id, key)]
	if want == nil {
		has = false
	}
	line := append(append([]byte{}, key...), "neighbour"...)
	v, err := bk.Get(line[:len(key)])
	if string(line) != string(key)+"neighbour" {
		k.Fail(kind+":caller-memory", "%s: Get(%q,%x) changed the caller's memory: %q", when, id, key, line)
	}
	if err != nil {
		k.Fail(kind+":get-error", "%s: Get(%q,%x): %v", when, id, key, err)
		return
	}
	if has != bk.Has(key) {
		k.Fail(kind+":has", "%s: Has(%q,%x)=%v, stored %v (%d bytes)", when, id, key, !has, has, len(want))
	}
	if has && !bytes.Equal(v, want) {
		k.Fail(kind+":value", "%s: Get(%q,%x)=%x, stored %x", when, id, key, cut(v), cut(want))
	}
	if !has && len(v) > 0 {
		k.Fail(kind+":ghost", "%s: Get(%q,%x)=%x, nothing stored", when, id, key, cut(v))
	}
	k.Count("reads", 1)
}

func cut(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func storeHistory(kind string) func(*mon.Case) {
	return func(k *mon.Case) {
		dir := scratch()
		defer os.RemoveAll(dir)
		open := func() db.Database {
			d, err := db.Open(dir, kind, "test")
			if err != nil {
				k.Fail(kind+":open", "%v", err)
				return nil
			}
			return d
		}
		d := open()
		if d == nil {
			return
		}
		var other db.Database
		if k.Intn(3) == 0 { // a second store of another name is independent
			var err error
			if other, err = db.Open(dir, kind, "other"); err != nil {
				k.Fail(kind+":open", "%v", err)
			}
		}
		kept := map[db.BucketID]db.Bucket{}
		get := func(id db.BucketID) db.Bucket {
			if b, ok := kept[id]; ok && k.Intn(2) == 0 {
				return b
			}
			b, err := d.GetBucket(id)
			if err != nil {
				k.Fail(kind+":bucket", "%v", err)
			}
			kept[id] = b
			return b
		}
		model := map[string][]byte{}
		ops := 20 + k.Intn(120)
		var trace strings.Builder
		for n := 0; n < ops && !k.Failed(); n++ {
			id := bucketIDs[k.Intn(len(bucketIDs))]
			key := storeKey(k.Rand, id)
			switch x := k.Intn(100); {
			case x < 45:
				v := storeValue(k.Rand)
				want := append([]byte{}, v...)
				// the key is part of something larger
				line := append(append([]byte{}, key...), "neighbour"...)
				kb := line[:len(key)]
				if err := get(id).Set(kb, v); err != nil {
					k.Fail(kind+":set", "Set(%q,%x,%x): %v", id, key, cut(want), err)
				}
				if !bytes.Equal(v, want) || !bytes.Equal(kb, key) || string(line[len(key):]) != "neighbour" {
					k.Fail(kind+":caller-memory", "Set(%q,%x) changed the caller's memory: %q", id, key, line)
				}
				for i := range v { // the caller's buffers are its own again
					v[i] ^= 0xff
				}
				for i := range kb {
					kb[i] ^= 0xff
				}
				model[sid(id, key)] = want
				fmt.Fprintf(&trace, "s%q%x=%d;", id, key, len(want))
			case x < 65:
				line := append(append([]byte{}, key...), "neighbour"...)
				if err := get(id).Delete(line[:len(key)]); err != nil {
					k.Fail(kind+":delete", "Delete(%q,%x): %v", id, key, err)
				}
				if string(line) != string(key)+"neighbour" {
					k.Fail(kind+":caller-memory", "Delete(%q,%x) changed the caller's memory: %q", id, key, line)
				}
				delete(model, sid(id, key))
				fmt.Fprintf(&trace, "d%q%x;", id, key)
			case x < 95:
				oneKey(k, kind, get(id), id, key, model, "after "+strconv.Itoa(n))
			case x < 97:
				if other != nil {
					b, _ := other.GetBucket(id)
					if err := b.Set(key, []byte("other")); err != nil {
						k.Fail(kind+":set", "%v", err)
					}
				}
			default:
				if kind != "mapdb" {
					if err := d.Close(); err != nil {
						k.Fail(kind+":close", "%v", err)
					}
					kept = map[db.BucketID]db.Bucket{}
					if d = open(); d == nil {
						return
					}
					k.Count("reopened", 1)
					trace.WriteString("reopen;")
					checkStore(k, kind, get, model, "after reopening")
				}
			}
		}
		k.Input("%s", trace.String())
		checkStore(k, kind, get, model, "at the end")
		if other != nil {
			other.Close()
		}
		if err := d.Close(); err != nil {
			k.Fail(kind+":close", "%v", err)
		}
		k.Seen("%s", trace.String())
	}
}

func storeUnknown(k *mon.Case) {
	names := []string{"", "level", "MAPDB", "goleveldb ", "x"}
	n := names[k.Intn(len(names))]
	k.Input("%q", n)
	d, err := db.Open(os.TempDir(), n, "x")
	if err == nil || d != nil {
		k.Fail("unknown-backend", "Open of backend %q gave %v, %v", n, d, err)
	}
	k.Seen("%q", n)
}

// storeWriter is the process that is killed: it stores numbered values and
// acknowledges each on its standard output.
func storeWriter(args []string) {
	kind, dir := args[0], args[1]
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	d, err := db.Open(dir, kind, "test")
	if err != nil {
		fmt.Println("error", err)
		os.Exit(4)
	}
	r := rand.New(rand.NewSource(seed))
	for n := 0; ; n++ {
		id, key, v := writerOp(r)
		bk, err := d.GetBucket(id)
		if err == nil {
			if v == nil {
				err = bk.Delete(key)
			} else {
				err = bk.Set(key, v)
			}
		}
		if err != nil {
			fmt.Println("error", err)
			os.Exit(4)
		}
		fmt.Println(n)
	}
}

func writerOp(r *rand.Rand) (db.BucketID, []byte, []byte) {
	id := bucketIDs[r.Intn(len(bucketIDs))]
	key := storeKey(r, id)
	if r.Intn(4) == 0 {
		return id, key, nil
	}
	v := make([]byte, 8+r.Intn(60))
	r.Read(v)
	binary.BigEndian.PutUint32(v, uint32(r.Intn(1<<30)))
	return id, key, v
}

func storeKilled(kind string) func(*mon.Case) {
	return func(k *mon.Case) {
		dir := scratch()
		defer os.RemoveAll(dir)
		model := map[string][]byte{}
		lives := 1 + k.Intn(3)
		for life := 0; life < lives && !k.Failed(); life++ {
			seed := k.Int63()
			stop := k.Intn(400)
			cmd := exec.Command("/proc/self/exe", "-writer", kind, dir, strconv.FormatInt(seed, 10))
			out, err := cmd.StdoutPipe()
			if err != nil {
				panic("harness: " + err.Error())
			}
			if err = cmd.Start(); err != nil {
				panic("harness: " + err.Error())
			}
			acked := -1
			sc := bufio.NewScanner(out)
			timer := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
			msg := ""
			killed := false
			for sc.Scan() {
				n, err := strconv.Atoi(sc.Text())
				if err != nil {
					msg = sc.Text()
					break
				}
				acked = n
				if n >= stop && !killed { // what is in the pipe already counts as acknowledged too
					killed = true
					cmd.Process.Kill()
				}
			}
			cmd.Process.Kill()
			cmd.Wait()
			timer.Stop()
			if msg != "" {
				k.Fail(kind+":writer", "life %d: %s", life, msg)
				return
			}
			// every acknowledged operation happened; the next one may have
			r := rand.New(rand.NewSource(seed))
			for n := 0; n <= acked; n++ {
				id, key, v := writerOp(r)
				if v == nil {
					delete(model, sid(id, key))
				} else {
					model[sid(id, key)] = v
				}
			}
			nid, nkey, nv := writerOp(r)
			d, err := db.Open(dir, kind, "test")
			if err != nil {
				k.Fail(kind+":recover", "open after the kill: %v", err)
				return
			}
			bk, _ := d.GetBucket(nid)
			if v, err := bk.Get(nkey); err != nil {
				k.Fail(kind+":get-error", "%v", err)
			} else if nv != nil && bytes.Equal(v, nv) {
				model[sid(nid, nkey)] = nv
			} else if nv == nil && v == nil {
				delete(model, sid(nid, nkey))
			}
			checkStore(k, kind, func(id db.BucketID) db.Bucket { b, _ := d.GetBucket(id); return b }, model, fmt.Sprintf("after kill %d at %d", life, acked))
			if err = d.Close(); err != nil {
				k.Fail(kind+":close", "%v", err)
			}
			k.Count("kills", 1)
			k.Count("acknowledged", int64(acked+1))
			k.Seen("%d %d %d", seed, life, acked)
		}
		k.Input("%s, %d lives", kind, lives)
	}
}

// --- layers

type layer struct {
	d       db.Database
	ldb     db.LayerDB
	pend    map[string][]byte // nil value: deleted
	flushed bool
}

func layerHistory(kind string) func(*mon.Case) {
	return func(k *mon.Case) {
		var base db.Database
		if kind == "mapdb" {
			base = db.NewMapDB()
		} else {
			dir := scratch()
			defer os.RemoveAll(dir)
			var err error
			if base, err = db.Open(dir, kind, "x"); err != nil {
				k.Fail(kind+":open", "%v", err)
				return
			}
			defer base.Close()
		}
		model := map[string][]byte{}
		stack := []*layer{{d: base, flushed: true}}
		type held struct {
			lv int
			id db.BucketID
			b  db.Bucket
		}
		var handles []held
		// view is what level lv shows
		view := func(lv int) map[string][]byte {
			m := map[string][]byte{}
			for s, v := range model {
				m[s] = v
			}
			for i := 1; i <= lv; i++ {
				for s, v := range stack[i].pend {
					m[s] = v
				}
			}
			return m
		}
		var put func(lv int, s string, v []byte)
		put = func(lv int, s string, v []byte) {
			if lv == 0 {
				if v == nil {
					delete(model, s)
				} else {
					model[s] = v
				}
			} else if stack[lv].flushed {
				put(lv-1, s, v)
			} else {
				stack[lv].pend[s] = v
			}
		}
		bucket := func(lv int, id db.BucketID) db.Bucket {
			if k.Intn(2) == 0 {
				for _, h := range handles {
					if h.lv == lv && h.id == id {
						return h.b
					}
				}
			}
			b, err := stack[lv].d.GetBucket(id)
			if err != nil {
				k.Fail("layer:bucket", "%v", err)
			}
			handles = append(handles, held{lv, id, b})
			return b
		}
		var trace strings.Builder
		for n, ops := 0, 10+k.Intn(80); n < ops && !k.Failed(); n++ {
			lv := k.Intn(len(stack))
			id := bucketIDs[k.Intn(3)]
			key := storeKey(k.Rand, id)
			switch x := k.Intn(100); {
			case x < 10 && len(stack) < 4:
				ldb := db.NewLayerDB(stack[len(stack)-1].d)
				stack = append(stack, &layer{d: ldb, ldb: ldb, pend: map[string][]byte{}})
				trace.WriteString("+;")
			case x < 40:
				v := storeValue(k.Rand)
				want := append([]byte{}, v...)
				if err := bucket(lv, id).Set(key, v); err != nil {
					k.Fail("layer:set", "%v", err)
				}
				for i := range v {
					v[i] ^= 0xff
				}
				put(lv, sid(id, key), want)
				fmt.Fprintf(&trace, "%ds%q%x=%d;", lv, id, key, len(want))
			case x < 55:
				if err := bucket(lv, id).Delete(key); err != nil {
					k.Fail("layer:delete", "%v", err)
				}
				put(lv, sid(id, key), nil)
				fmt.Fprintf(&trace, "%dd%q%x;", lv, id, key)
			case x < 65 && lv > 0:
				write := k.Intn(2) == 0
				if err := stack[lv].ldb.Flush(write); err != nil {
					k.Fail("layer:flush", "%v", err)
				}
				if !stack[lv].flushed {
					stack[lv].flushed = true
					p := stack[lv].pend
					stack[lv].pend = nil
					if write {
						for s, v := range p {
							put(lv-1, s, v)
						}
					}
				}
				k.Count("flushes", 1)
				fmt.Fprintf(&trace, "%df%v;", lv, write)
				for l := range stack {
					checkStore(k, "layer", func(id db.BucketID) db.Bucket { return bucket(l, id) }, view(l), fmt.Sprintf("level %d after flush(%v) of level %d", l, write, lv))
				}
			default:
				oneKey(k, "layer", bucket(lv, id), id, key, view(lv), fmt.Sprintf("level %d after %d", lv, n))
			}
		}
		k.Input("%s", trace.String())
		for l := range stack {
			checkStore(k, "layer", func(id db.BucketID) db.Bucket { return bucket(l, id) }, view(l), fmt.Sprintf("level %d at the end", l))
		}
		for l := len(stack) - 1; l > 0; l-- { // closing a layer keeps what lies below usable
			if err := stack[l].d.Close(); err != nil {
				k.Fail("layer:close", "%v", err)
			}
		}
		checkStore(k, "layer", func(id db.BucketID) db.Bucket { return bucket(0, id) }, view(0), "base after closing the layers")
		k.Seen("%s", trace.String())
	}
}

// faulty fails writes as told.
type faulty struct {
	db.Database
	left *int64
}
type faultyBucket struct {
	db.Bucket
	left *int64
}

var errFaulty = fmt.Errorf("injected")

func (f faulty) GetBucket(id db.BucketID) (db.Bucket, error) {
	b, err := f.Database.GetBucket(id)
	return faultyBucket{b, f.left}, err
}
func (b faultyBucket) Set(key, v []byte) error {
	if atomic.AddInt64(b.left, -1) == -1 {
		return errFaulty
	}
	return b.Bucket.Set(key, v)
}
func (b faultyBucket) Delete(key []byte) error {
	if atomic.AddInt64(b.left, -1) == -1 {
		return errFaulty
	}
	return b.Bucket.Delete(key)
}

// layerFailing flushes into a store that fails once: the flush reports it, no
// change is lost, and flushing again completes it.
func layerFailing(k *mon.Case) {
	left := int64(1 << 40)
	base := db.NewMapDB()
	ldb := db.NewLayerDB(faulty{base, &left})
	model := map[string][]byte{}
	changes := 0
	for i := 0; i < k.Intn(5); i++ {
		id := bucketIDs[k.Intn(3)]
		key := storeKey(k.Rand, id)
		b, _ := base.GetBucket(id)
		v := storeValue(k.Rand)
		b.Set(key, v)
		model[sid(id, key)] = v
	}
	touched := map[string]bool{}
	for i, n := 0, 1+k.Intn(12); i < n; i++ {
		id := bucketIDs[k.Intn(3)]
		key := storeKey(k.Rand, id)
		b, err := ldb.GetBucket(id)
		if err != nil {
			k.Fail("layer:bucket", "%v", err)
			return
		}
		if k.Intn(3) == 0 {
			b.Delete(key)
			delete(model, sid(id, key))
		} else {
			v := storeValue(k.Rand)
			b.Set(key, v)
			model[sid(id, key)] = v
		}
		touched[sid(id, key)] = true
	}
	changes = len(touched)
	at := int64(k.Intn(changes + 1))
	left = at
	k.Input("%d changes, failure at %d", changes, at)
	err := ldb.Flush(true)
	failed := at < int64(changes)
	if failed != (err != nil) {
		k.Fail("layer:flush-error", "flush with failure at %d of %d: %v", at, changes, err)
		return
	}
	all := func(d db.Database) func(db.BucketID) db.Bucket {
		return func(id db.BucketID) db.Bucket { b, _ := d.GetBucket(id); return b }
	}
	checkStore(k, "layer", all(ldb), model, "after the failed flush")
	if failed { // a bucket first used now is part of the layer still
		left = 1 << 40
		id := bucketIDs[4]
		key, v := []byte("late"), storeValue(k.Rand)
		b, err := ldb.GetBucket(id)
		if err == nil {
			err = b.Set(key, v)
		}
		if err != nil {
			k.Fail("layer:set", "%v", err)
			return
		}
		if bb, _ := base.GetBucket(id); bb.Has(key) {
			k.Fail("layer:early", "a change made after the failed flush is in the base before the layer is flushed")
		}
		model[sid(id, key)] = v
		checkStore(k, "layer", all(ldb), model, "after a change after the failed flush")
		if err = ldb.Flush(true); err != nil {
			k.Fail("layer:reflush", "%v", err)
		}
	}
	checkStore(k, "layer", all(ldb), model, "after the repeated flush")
	checkStore(k, "layer", all(base), model, "base after the repeated flush")
	k.Seen("%d %d %v", changes, at, model)
}

// --- parallel use

type regIn struct {
	op  int // 0 get, 1 set, 2 delete, 3 has
	val string
}

var regModel = porcupine.Model{
	Partition: func(history []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		var names []string
		for _, o := range history {
			s := o.Metadata.(string)
			if m[s] == nil {
				names = append(names, s)
			}
			m[s] = append(m[s], o)
		}
		res := make([][]porcupine.Operation, 0, len(names))
		for _, s := range names {
			res = append(res, m[s])
		}
		return res
	},
	Init: func() interface{} { return "" },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		in := input.(regIn)
		switch in.op {
		case 0:
			return output.(string) == state.(string), state
		case 1:
			return true, in.val
		case 2:
			return true, ""
		}
		return output.(bool) == (state.(string) != ""), state
	},
	DescribeOperation: func(in, out interface{}) string {
		i := in.(regIn)
		return fmt.Sprintf("%s(%s)=%v", []string{"get", "set", "delete", "has"}[i.op], i.val, out)
	},
}

func storeParallel(kind string, layered bool) func(*mon.Case) {
	return func(k *mon.Case) {
		var d db.Database
		if kind == "mapdb" && k.Intn(2) == 0 {
			d = db.NewMapDB()
		} else {
			dir := scratch()
			defer os.RemoveAll(dir)
			var err error
			if d, err = db.Open(dir, kind, "p"); err != nil {
				k.Fail(kind+":open", "%v", err)
				return
			}
		}
		defer d.Close()
		var ldb db.LayerDB
		if layered {
			ldb = db.NewLayerDB(d)
			d = ldb
		}
		workers, perW, keys := 3+k.Intn(4), 15+k.Intn(30), 1+k.Intn(3)
		flushAt := -1
		if layered && k.Intn(3) > 0 {
			flushAt = k.Intn(perW)
		}
		k.Input("%s layered=%v workers=%d ops=%d keys=%d flush=%d", kind, layered, workers, perW, keys, flushAt)
		var mu sync.Mutex
		var hist []porcupine.Operation
		var wg sync.WaitGroup
		t0 := time.Now()
		for w := 0; w < workers; w++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(k.Int63()))
			go func(w int) {
				defer wg.Done()
				for i := 0; i < perW; i++ {
					if w == 0 && i == flushAt {
						if err := ldb.Flush(true); err != nil {
							k.Fail("layer:flush", "%v", err)
						}
						k.Count("flushes", 1)
					}
					id := bucketIDs[r.Intn(2)]
					key := make([]byte, 32)
					key[5] = byte(r.Intn(keys))
					bk, err := d.GetBucket(id)
					if err != nil {
						k.Fail(kind+":bucket", "%v", err)
						return
					}
					in := regIn{op: r.Intn(4)}
					if in.op == 1 {
						in.val = fmt.Sprintf("w%d-%d", w, i)
					}
					var out interface{}
					call := time.Since(t0).Nanoseconds()
					switch in.op {
					case 0:
						var v []byte
						v, err = bk.Get(key)
						out = string(v)
					case 1:
						err = bk.Set(key, []byte(in.val))
					case 2:
						err = bk.Delete(key)
					case 3:
						out = bk.Has(key)
					}
					ret := time.Since(t0).Nanoseconds()
					if err != nil {
						k.Fail(kind+":parallel-error", "%v", err)
						return
					}
					mu.Lock()
					hist = append(hist, porcupine.Operation{ClientId: w, Input: in, Call: call, Output: out, Return: ret, Metadata: sid(id, key)})
					mu.Unlock()
				}
			}(w)
		}
		wg.Wait()
		k.Count("operations", int64(len(hist)))
		overlap := 0
		for i := 1; i < len(hist); i++ {
			if hist[i].Call < hist[i-1].Return {
				overlap++
			}
		}
		k.Count("overlapping", int64(overlap))
		switch porcupine.CheckOperationsTimeout(regModel, hist, 20*time.Second) {
		case porcupine.Illegal:
			var b strings.Builder
			for _, o := range hist {
				fmt.Fprintf(&b, "%d %q %s [%d,%d]\n", o.ClientId, o.Metadata.(string)[:1], regModel.DescribeOperation(o.Input, o.Output), o.Call, o.Return)
			}
			k.Fail(kind+":not-linearizable", "no order of these operations explains what they returned\n%s", b.String())
		case porcupine.Unknown:
			k.Count("undecided_histories", 1)
		}
		k.Seen("%d %d", k.I, overlap)
	}
}

var _ = filepath.Join
