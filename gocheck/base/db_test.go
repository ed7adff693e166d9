package base

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/icon-project/btp/common/db"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

// faultDB fails chosen writes; it wraps a real backend.
type faultDB struct {
	db.Database
	failIn int // fails the write after this many successful ones; <0 never
}

type faultBucket struct {
	db.Bucket
	f *faultDB
}

var errInjected = errors.New("injected")

func (f *faultDB) GetBucket(id db.BucketID) (db.Bucket, error) {
	b, err := f.Database.GetBucket(id)
	if err != nil {
		return nil, err
	}
	return &faultBucket{b, f}, nil
}

func (f *faultDB) hit() bool {
	if f.failIn == 0 {
		f.failIn = -1
		return true
	}
	if f.failIn > 0 {
		f.failIn--
	}
	return false
}

func (b *faultBucket) Set(k, v []byte) error {
	if b.f.hit() {
		return errInjected
	}
	return b.Bucket.Set(k, v)
}

func (b *faultBucket) Delete(k []byte) error {
	if b.f.hit() {
		return errInjected
	}
	return b.Bucket.Delete(k)
}

type model map[string]map[string][]byte

func (m model) clone() model {
	r := model{}
	for b, kv := range m {
		r[b] = map[string][]byte{}
		for k, v := range kv {
			r[b][k] = v
		}
	}
	return r
}

var bucketIDs = []string{"S", "T", "H", "B", "R", "C", "s", "\x00"}

// verify compares every bucket and key ever used with the model.
func verify(t *rapid.T, what string, d db.Database, m model, keys map[string]bool) {
	for _, id := range bucketIDs {
		b, err := d.GetBucket(db.BucketID(id))
		if err != nil {
			t.Fatalf("%s: bucket %q: %v", what, id, err)
		}
		for k := range keys {
			check(t, what, b, id, k, m)
		}
	}
}

func check(t *rapid.T, what string, b db.Bucket, id, k string, m model) {
	want, ok := m[id][k]
	var got []byte
	var err error
	var has bool
	if p := pbt.NoPanic(func() { got, err = b.Get([]byte(k)); has = b.Has([]byte(k)) }); p != "" {
		t.Fatalf("%s: bucket %q key %x: %s", what, id, k, p)
	}
	if err != nil {
		t.Fatalf("%s: bucket %q get %x: %v", what, id, k, err)
	}
	if has != ok {
		t.Fatalf("%s: bucket %q has(%x)=%v, want %v", what, id, k, has, ok)
	}
	if ok && (got == nil || !bytes.Equal(got, want)) || !ok && got != nil {
		t.Fatalf("%s: bucket %q get(%x)=%#v, want %#v (present=%v)", what, id, k, got, want, ok)
	}
	if strings.HasPrefix(what, "layer") {
		return
	}
	// the caller may do what it likes with the answer of a database
	for i := range got {
		got[i] ^= 0xff
	}
	if ok && len(got) > 0 {
		if again, _ := b.Get([]byte(k)); !bytes.Equal(again, want) {
			t.Fatalf("%s: bucket %q: changing the answer for %x changed the stored value to %x", what, id, k, again)
		}
	}
}

func dbHistory(t *testing.T, backend string, quick int) {
	pbt.Check(t, quick, "the history deletes or overwrites a stored key", func(t *rapid.T, c *pbt.Case) {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "db")
		if err != nil {
			t.Fatalf("VERIF-INCONCLUSIVE %v", err)
		}
		defer os.RemoveAll(dir)
		open := func() db.Database {
			d, err := db.Open(dir, backend, "test")
			if err != nil {
				t.Fatalf("open: %v", err)
			}
			return d
		}
		raw := &faultDB{open(), -1}
		defer func() { raw.Database.Close() }()
		m := model{}
		for _, id := range bucketIDs {
			m[id] = map[string][]byte{}
		}
		keys := map[string]bool{}
		var layer db.LayerDB // the open layer, if any
		var layered model
		flushed := false
		held := map[string]db.Bucket{}
		reopens, maxReopen := 0, 40
		if backend == "badgerdb" { // opening and closing it takes a second
			maxReopen = 1
		}
		cur := func() (db.Database, model) {
			if layer != nil {
				return layer, layered
			}
			return raw, m
		}
		bucket := func(id string) db.Bucket {
			d, _ := cur()
			if b, ok := held[id]; ok && rapid.Bool().Draw(t, "held") {
				return b
			}
			b, err := d.GetBucket(db.BucketID(id))
			if err != nil {
				t.Fatal(err)
			}
			held[id] = b
			return b
		}
		where := func() string {
			if layer != nil {
				return "layer"
			}
			return "database"
		}
		genKey := rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 1, 8), rapid.SliceOfN(rapid.SampledFrom([]byte{0, 'S', 'T', 's', 0xff}), 1, 3),
			// keys of many lengths that differ at their ends only
			rapid.Custom(func(t *rapid.T) []byte {
				return append(bytes.Repeat([]byte{'k'}, rapid.SampledFrom([]int{15, 31, 32, 63, 64, 127, 254, 255, 256, 1000}).Draw(t, "len")), rapid.Byte().Draw(t, "last"))
			}))
		n := rapid.IntRange(1, 40).Draw(t, "ops")
		var log []string
		for i := 0; i < n; i++ {
			id := rapid.SampledFrom(bucketIDs).Draw(t, "bucket")
			var k []byte
			if len(keys) > 0 && rapid.IntRange(0, 2).Draw(t, "oldkey") > 0 {
				ks := make([]string, 0, len(keys))
				for s := range keys {
					ks = append(ks, s)
				}
				sort.Strings(ks)
				k = []byte(rapid.SampledFrom(ks).Draw(t, "k"))
			} else {
				k = append([]byte(nil), genKey.Draw(t, "k")...)
			}
			keys[string(k)] = true
			_, mm := cur()
			switch op := rapid.IntRange(0, 11).Draw(t, "op"); {
			case op <= 4:
				v := append([]byte{}, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "v")...)
				if pbt.Pct(t, "big", 5) {
					v = bytes.Repeat(append(v, byte(i)), rapid.SampledFrom([]int{16, 256, 4000}).Draw(t, "times"))
				}
				log = append(log, fmt.Sprintf("set %q %x %x", id, k, v))
				if _, ok := mm[id][string(k)]; ok {
					c.NonTrivial(true)
				}
				kk, vv := append([]byte(nil), k...), append([]byte{}, v...)
				if err := bucket(id).Set(kk, vv); err != nil {
					t.Fatalf("set: %v", err)
				}
				mm[id][string(k)] = v
				if layer != nil && flushed {
					m[id][string(k)] = v
				}
				for j := range kk { // the caller reuses its buffers
					kk[j] ^= 0xff
				}
				for j := range vv {
					vv[j] ^= 0xff
				}
			case op <= 6:
				log = append(log, fmt.Sprintf("del %q %x", id, k))
				if _, ok := mm[id][string(k)]; ok {
					c.NonTrivial(true)
				}
				if err := bucket(id).Delete(k); err != nil {
					t.Fatalf("delete: %v", err)
				}
				delete(mm[id], string(k))
				if layer != nil && flushed {
					delete(m[id], string(k))
				}
			case op == 7:
				check(t, where(), bucket(id), id, string(k), mm)
			case op == 8:
				if layer == nil {
					layer, layered, flushed = db.NewLayerDB(raw), m.clone(), false
					held = map[string]db.Bucket{}
					log = append(log, "layer")
				}
			case op == 9:
				if layer != nil && !flushed {
					write := rapid.Bool().Draw(t, "write")
					fail := write && rapid.IntRange(0, 2).Draw(t, "fail") == 0
					if fail {
						raw.failIn = rapid.IntRange(0, 3).Draw(t, "failIn")
					}
					err := layer.Flush(write)
					c.Label("flush write=%v err=%v", write, err != nil)
					log = append(log, fmt.Sprintf("flush %v %v", write, err))
					if err != nil {
						if !fail || err != errInjected {
							t.Fatalf("flush: %v", err)
						}
						// nothing may be lost: the layer shows the same, and a retry completes
						raw.failIn = -1
						verify(t, "layer after a failed flush", layer, layered, keys)
						if err := layer.Flush(true); err != nil {
							t.Fatalf("second flush: %v", err)
						}
					}
					raw.failIn = -1
					if write {
						m = layered.clone()
					} else {
						layered = m.clone()
					}
					flushed = true
					verify(t, "layer after flush", layer, layered, keys)
					verify(t, "database after flush", raw, m, keys)
				}
			case op == 10:
				if layer != nil {
					if err := layer.Close(); err != nil {
						t.Fatalf("closing the layer: %v", err)
					}
					layer, held = nil, map[string]db.Bucket{}
					log = append(log, "drop layer")
					verify(t, "database after dropping the layer", raw, m, keys)
				}
			default:
				if layer == nil && backend != "mapdb" && reopens < maxReopen {
					reopens++
					if err := raw.Database.Close(); err != nil {
						t.Fatalf("close: %v", err)
					}
					raw.Database = open()
					held = map[string]db.Bucket{}
					log = append(log, "reopen")
					c.Label("reopen")
					verify(t, "reopened", raw, m, keys)
				}
			}
		}
		c.Key("%s", strings.Join(log, ";"))
		d, mm := cur()
		verify(t, where()+" at the end", d, mm, keys)
		if layer != nil && !flushed {
			// nothing reaches the database before the flush
			verify(t, "database under an open layer", raw, m, keys)
		}
	})
}

func TestS01_Map(t *testing.T)     { dbHistory(t, "mapdb", 600) }
func TestS01_LevelDB(t *testing.T) { dbHistory(t, "goleveldb", 60) }
func TestS01_Badger(t *testing.T)  { dbHistory(t, "badgerdb", 2) }

func TestS01_UnknownBackend(t *testing.T) {
	pbt.Check(t, 20, "name is no backend", func(t *rapid.T, c *pbt.Case) {
		n := rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"mapDB", "leveldb", "MAPDB", "badger"})).Draw(t, "name")
		c.Key("%q", n)
		if n == "mapdb" || n == "goleveldb" || n == "badgerdb" {
			return
		}
		c.NonTrivial(true)
		if d, err := db.Open("/nonexistent", n, "x"); err == nil || d != nil {
			t.Fatalf("opened %q: %v", n, d)
		}
	})
}
