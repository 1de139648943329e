package main

// The key-value store (Kv, KvRange): on a storage that loses what was not
// synced, and on real files whose system calls are recorded with strace.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/coniks-sys/coniks-go/storage/kv"
	"github.com/coniks-sys/coniks-go/storage/kv/leveldbkv"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/storage"
)

func init() {
	suites["kv"] = kvSuite
}

// fsOp is one change of a file system.
type fsOp struct {
	kind string // create, write, sync, rename, remove, meta
	fd   storage.FileDesc
	to   storage.FileDesc
	data []byte
}

type cfile struct {
	data   []byte
	synced int
}

// crashFS is a storage in memory that keeps the history of its changes.
type crashFS struct {
	mu     sync.Mutex
	log    []fsOp
	files  map[storage.FileDesc]*cfile
	meta   storage.FileDesc
	// the manifest was not on stable storage when it was put to use
	unforced bool
	locked   bool
	dead   bool // the machine has crashed: changes have no effect
}

func newCrashFS() *crashFS {
	return &crashFS{files: map[storage.FileDesc]*cfile{}}
}

func (s *crashFS) apply(o fsOp) {
	switch o.kind {
	case "create":
		s.files[o.fd] = &cfile{}
	case "write":
		if f := s.files[o.fd]; f != nil {
			f.data = append(f.data, o.data...)
		}
	case "sync":
		if f := s.files[o.fd]; f != nil {
			f.synced = len(f.data)
		}
	case "rename":
		if f := s.files[o.fd]; f != nil {
			delete(s.files, o.fd)
			s.files[o.to] = f
		}
	case "remove":
		delete(s.files, o.fd)
	case "meta":
		// leveldb does not sync a manifest before it points to it; this is
		// reported as event Opened, elsewhere the manifest is taken as synced
		s.meta = o.fd
		if f := s.files[o.fd]; f != nil {
			if f.synced < len(f.data) {
				s.unforced = true
			}
			f.synced = len(f.data)
		}
	}
}

func (s *crashFS) do(o fsOp) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.dead {
		return errors.New("crashed")
	}
	s.apply(o)
	s.log = append(s.log, o)
	return nil
}

func (s *crashFS) len() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.log)
}

// image is what a crash after the first n changes leaves: of what was written
// to a file since it was synced, cut decides how much remains.
func (s *crashFS) image(n int, cut func(unsynced int) int) *crashFS {
	s.mu.Lock()
	log := s.log[:n]
	s.mu.Unlock()
	r := newCrashFS()
	for _, o := range log {
		r.apply(o)
	}
	var fds []storage.FileDesc
	for fd := range r.files {
		fds = append(fds, fd)
	}
	sort.Slice(fds, func(i, j int) bool { return fds[i].String() < fds[j].String() })
	for _, fd := range fds {
		f := r.files[fd]
		keep := f.synced + cut(len(f.data)-f.synced)
		r.log = append(r.log, fsOp{kind: "create", fd: fd}, fsOp{kind: "write", fd: fd, data: f.data[:keep:keep]}, fsOp{kind: "sync", fd: fd})
	}
	r.log = append(r.log, fsOp{kind: "meta", fd: r.meta})
	r.unforced = false
	r.files = map[storage.FileDesc]*cfile{}
	for _, o := range r.log {
		r.apply(o)
	}
	return r
}

func (s *crashFS) Lock() (storage.Locker, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.locked {
		return nil, storage.ErrLocked
	}
	s.locked = true
	return s, nil
}

func (s *crashFS) Unlock() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.locked = false
}

func (s *crashFS) Log(string) {}

func (s *crashFS) SetMeta(fd storage.FileDesc) error { return s.do(fsOp{kind: "meta", fd: fd}) }

func (s *crashFS) GetMeta() (storage.FileDesc, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.meta.Zero() || s.files[s.meta] == nil {
		return storage.FileDesc{}, os.ErrNotExist
	}
	return s.meta, nil
}

func (s *crashFS) List(ft storage.FileType) (out []storage.FileDesc, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for fd := range s.files {
		if fd.Type&ft != 0 {
			out = append(out, fd)
		}
	}
	return
}

type cReader struct{ *bytes.Reader }

func (cReader) Close() error { return nil }

func (s *crashFS) Open(fd storage.FileDesc) (storage.Reader, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f := s.files[fd]
	if f == nil {
		return nil, os.ErrNotExist
	}
	return cReader{bytes.NewReader(f.data)}, nil
}

type cWriter struct {
	s  *crashFS
	fd storage.FileDesc
}

func (w cWriter) Write(p []byte) (int, error) {
	if err := w.s.do(fsOp{kind: "write", fd: w.fd, data: append([]byte{}, p...)}); err != nil {
		return 0, err
	}
	return len(p), nil
}
func (w cWriter) Sync() error  { return w.s.do(fsOp{kind: "sync", fd: w.fd}) }
func (w cWriter) Close() error { return nil }

func (s *crashFS) Create(fd storage.FileDesc) (storage.Writer, error) {
	if err := s.do(fsOp{kind: "create", fd: fd}); err != nil {
		return nil, err
	}
	return cWriter{s, fd}, nil
}

func (s *crashFS) Remove(fd storage.FileDesc) error { return s.do(fsOp{kind: "remove", fd: fd}) }

func (s *crashFS) Rename(a, b storage.FileDesc) error {
	return s.do(fsOp{kind: "rename", fd: a, to: b})
}

func (s *crashFS) Close() error { return nil }

// --- keys and values

func keyOf(x interface{}) []byte {
	k := []byte{}
	for _, b := range x.([]interface{}) {
		k = append(k, byte(b.(float64)))
	}
	return k
}

func keyJSON(k []byte) []int {
	out := []int{}
	for _, b := range k {
		out = append(out, int(b))
	}
	return out
}

// limitJSON is a limit of a range, nil meaning none.
func limitJSON(k []byte) []int {
	if k == nil {
		return []int{-1}
	}
	return keyJSON(k)
}

type kvVals struct {
	byName map[string][]byte
	byVal  map[string]string
}

func (v *kvVals) bytes(rnd *rand.Rand, name string) []byte {
	if b, ok := v.byName[name]; ok {
		return append([]byte{}, b...)
	}
	n := 0
	switch {
	case name == "":
	case strings.HasPrefix(name, "big"):
		n = 700000 + rnd.Intn(900000)
	case strings.HasPrefix(name, "w"):
		n = 20000 + rnd.Intn(50000)
	default:
		n = 1 + rnd.Intn(60)
	}
	var b []byte
	for {
		b = make([]byte, n)
		rnd.Read(b)
		if _, dup := v.byVal[string(b)]; !dup {
			break
		}
	}
	v.byName[name], v.byVal[string(b)] = b, name
	return append([]byte{}, b...)
}

func (v *kvVals) name(b []byte) string {
	if n, ok := v.byVal[string(b)]; ok {
		return n
	}
	return fmt.Sprintf("?%d", len(b))
}

type kvRun struct {
	rnd  *rand.Rand
	vals *kvVals
	fs   *crashFS
	db   kv.DB
	keys map[string]bool
	from int // position in the log of changes at which the last write began
	busy bool
}

func noCut(n int) int { return n }
func cutAll(int) int  { return 0 }

// recovered opens an image and reads everything.
func (r *kvRun) recovered(img *crashFS) rec {
	out := []rec{}
	db, err := leveldb.Open(img, nil)
	if err != nil {
		return rec{"err": err.Error(), "m": out}
	}
	defer db.Close()
	it := db.NewIterator(nil, nil)
	for it.Next() {
		out = append(out, rec{"k": keyJSON(it.Key()), "v": r.vals.name(it.Value())})
	}
	it.Release()
	if err := it.Error(); err != nil {
		return rec{"err": err.Error(), "m": out}
	}
	return rec{"err": "", "m": out}
}

func dedup(xs []rec) []rec {
	seen := map[string]bool{}
	out := []rec{}
	for _, x := range xs {
		s := fmt.Sprint(x)
		if !seen[s] {
			seen[s] = true
			out = append(out, x)
		}
	}
	return out
}

// cuts are the ways a crash treats what was not synced.
func (r *kvRun) cuts() []func(int) int {
	return []func(int) int{cutAll, noCut, func(n int) int { return r.rnd.Intn(n + 1) }}
}

// write performs a write and takes images of the disk during and after it.
func (r *kvRun) write(t *tracer, how string, ops interface{}, f func() error) {
	r.from = r.fs.len()
	var err error
	p := guard(func() { err = f() })
	to := r.fs.len()
	o := rec{"err": p}
	if p == "" && err != nil {
		o["err"] = err.Error()
	}
	var during, after []rec
	for n := r.from; n <= to; n++ {
		for i, c := range r.cuts() {
			if to-r.from > 6 && i != n%3 { // a long write: not everything everywhere
				continue
			}
			during = append(during, r.recovered(r.fs.image(n, c)))
		}
	}
	for _, c := range r.cuts() {
		after = append(after, r.recovered(r.fs.image(to, c)))
	}
	o["during"], o["after"] = dedup(during), dedup(after)
	t.emit(rec{"ev": "Write", "how": how, "ops": ops, "o": o})
}

func (r *kvRun) get(k []byte) (bool, string) {
	var v []byte
	var err error
	if p := guard(func() { v, err = r.db.Get(k) }); p != "" {
		return false, p
	}
	if err != nil {
		if err == r.db.ErrNotFound() {
			return false, ""
		}
		return false, err.Error()
	}
	return true, r.vals.name(v)
}

func (r *kvRun) dump() []rec {
	var ks []string
	for k := range r.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []rec{}
	for _, k := range ks {
		if ok, v := r.get([]byte(k)); ok {
			out = append(out, rec{"k": keyJSON([]byte(k)), "v": v})
		} else if v != "" {
			out = append(out, rec{"k": keyJSON([]byte(k)), "v": "!" + v})
		}
	}
	return out
}

func (r *kvRun) scan(rg *kv.Range) (string, []rec) {
	es := []rec{}
	err := ""
	p := guard(func() {
		it := r.db.NewIterator(rg)
		for it.Next() {
			es = append(es, rec{"k": keyJSON(it.Key()), "v": r.vals.name(it.Value())})
			if len(es) > 1000 {
				err = "endless"
				break
			}
		}
		it.Release()
		if e := it.Error(); e != nil {
			err = e.Error()
		}
	})
	return p + err, es
}

func kvOp(x interface{}) (t string, k []byte, v string) {
	o := x.(rec)
	return o["t"].(string), keyOf(o["k"]), o["v"].(string)
}

func (r *kvRun) batch(ops []interface{}) kv.Batch {
	b := r.db.NewBatch()
	for _, x := range ops {
		t, k, v := kvOp(x)
		r.keys[string(k)] = true
		switch t {
		case "put":
			b.Put(k, r.vals.bytes(r.rnd, v))
		case "del":
			b.Delete(k)
		case "reset":
			b.Reset()
		}
	}
	return b
}

func (r *kvRun) open(t *tracer) error {
	before := r.fs.len()
	db, err := leveldb.Open(r.fs, nil)
	// a crash may come while an existing database is opened
	if r.from = before; before == 0 {
		r.from = r.fs.len()
	}
	if err != nil {
		return err
	}
	r.db = leveldbkv.Wrap(db)
	r.fs.mu.Lock()
	defer r.fs.mu.Unlock()
	t.emit(rec{"ev": "Opened", "o": rec{"forced": !r.fs.unforced}})
	return nil
}

func single(t string, k []byte, v string) []rec {
	return []rec{{"t": t, "k": keyJSON(k), "v": v}}
}

func (r *kvRun) step(t *tracer, op rec) {
	switch str(op, "op") {
	case "Put":
		k := keyOf(op["k"])
		r.keys[string(k)] = true
		v := r.vals.bytes(r.rnd, str(op, "v"))
		r.write(t, "Put", single("put", k, str(op, "v")), func() error { return r.db.Put(k, v) })
	case "Del":
		k := keyOf(op["k"])
		r.keys[string(k)] = true
		r.write(t, "Delete", single("del", k, ""), func() error { return r.db.Delete(k) })
	case "Batch":
		ops := op["ops"].([]interface{})
		b := r.batch(ops)
		r.write(t, "Batch", ops, func() error { return r.db.Write(b) })
	case "Get":
		k := keyOf(op["k"])
		r.keys[string(k)] = true
		ok, v := r.get(k)
		t.emit(rec{"ev": "Get", "k": op["k"], "o": rec{"ok": ok, "v": v}})
	case "Reopen":
		o := rec{"err": ""}
		if err := r.db.Close(); err != nil {
			o["err"] = err.Error()
		}
		err := r.open(t)
		if err != nil {
			t.emit(rec{"ev": "Reopen", "o": rec{"err": "open: " + err.Error(), "m": []rec{}}})
			r.db = nil
			return
		}
		o["m"] = r.dump()
		t.emit(rec{"ev": "Reopen", "o": o})
	case "Crash":
		during := op["during"].(bool)
		n := r.fs.len()
		if during {
			n = r.from + r.rnd.Intn(n-r.from+1)
		}
		cs := r.cuts()
		img := r.fs.image(n, cs[r.rnd.Intn(len(cs))])
		r.fs.mu.Lock()
		r.fs.dead = true
		r.fs.mu.Unlock()
		guard(func() { r.db.Close() })
		r.fs = img
		o := rec{"err": "", "m": []rec{}}
		if err := r.open(t); err != nil {
			o["err"] = "open: " + err.Error()
			r.db = nil
		} else {
			o["m"] = r.dump()
		}
		t.emit(rec{"ev": "Crash", "during": during, "o": o})
	case "Scan":
		s := keyOf(op["s"])
		e := op["e"].([]interface{})
		rg := &kv.Range{Start: s}
		if !(len(e) == 1 && e[0].(float64) < 0) {
			rg.Limit = keyOf(op["e"])
		}
		if len(s) == 0 && rg.Limit == nil && r.rnd.Intn(2) == 0 {
			rg = nil
		}
		err, es := r.scan(rg)
		t.emit(rec{"ev": "Scan", "s": op["s"], "e": op["e"], "o": rec{"err": err, "es": es}})
	case "Prefix":
		p := keyOf(op["p"])
		room := append(append(make([]byte, 0, len(p)+8), p...), 7, 7, 7)
		in := room[:len(p)] // with spare capacity, which is not to be touched either
		o := rec{"start": []int{}, "limit": []int{}, "inc": []int{}}
		var rg *kv.Range
		if pn := guard(func() {
			rg = kv.BytesPrefix(in)
			o["start"], o["limit"] = keyJSON(rg.Start), limitJSON(rg.Limit)
			o["inc"] = limitJSON(kv.IncrementKey(in))
		}); pn != "" {
			o["err"], o["es"] = pn, []rec{}
		} else {
			o["err"], o["es"] = r.scan(rg)
		}
		o["same"] = bytes.Equal(in, p) && bytes.Equal(room[len(p):], []byte{7, 7, 7})
		t.emit(rec{"ev": "Prefix", "p": op["p"], "o": o})
	case "Walk":
		p := keyOf(op["p"])
		es := []rec{}
		pn := guard(func() {
			it := r.db.NewIterator(kv.BytesPrefix(p))
			for _, w := range op["ws"].([]interface{}) {
				var ok bool
				switch w.(string) {
				case "First":
					ok = it.First()
				case "Last":
					ok = it.Last()
				case "Next":
					ok = it.Next()
				}
				e := rec{"ok": ok, "k": []int{}, "v": ""}
				if ok {
					e["k"], e["v"] = keyJSON(it.Key()), r.vals.name(it.Value())
				}
				es = append(es, e)
			}
			it.Release()
			if err := it.Error(); err != nil {
				es = append(es, rec{"ok": false, "k": []int{}, "v": err.Error()})
			}
		})
		if pn != "" {
			es = append(es, rec{"ok": false, "k": []int{}, "v": pn})
		}
		t.emit(rec{"ev": "Walk", "p": op["p"], "ws": op["ws"], "o": rec{"es": es}})
	default:
		fatal("kv: unknown operation " + str(op, "op"))
	}
}

func kvSuite(t *tracer) error {
	t.histories(readOps(), func(t *tracer, id int, ops []rec) {
		r := &kvRun{rnd: t.rnd, vals: &kvVals{map[string][]byte{}, map[string]string{}}, keys: map[string]bool{}}
		for _, op := range ops {
			if str(op, "op") == "New" {
				t.emit(rec{"ev": "New"})
				r.fs = newCrashFS()
				if err := r.open(t); err != nil {
					fatal(err)
				}
				continue
			}
			if r.db == nil { // it did not open again
				break
			}
			r.step(t, op)
		}
		if r.db != nil {
			t.emit(rec{"ev": "Dump", "o": rec{"m": r.dump()}})
			r.db.Close()
		}
	})
	return nil
}

var _ io.Closer = cReader{}
