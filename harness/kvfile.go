package main

// The key-value store on real files (OpenDB): the system calls of a process
// that uses it are recorded with strace, and the files a crash could leave are
// put together from them.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/coniks-sys/coniks-go/storage/kv"
	"github.com/coniks-sys/coniks-go/storage/kv/leveldbkv"
	"github.com/syndtr/goleveldb/leveldb"
)

func init() {
	suites["kvfile"] = kvFileSuite
	suites["kvfile-child"] = kvFileChild
}

func openDB(dir string) (db kv.DB, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return leveldbkv.OpenDB(dir), nil
}

func newVals() *kvVals { return &kvVals{map[string][]byte{}, map[string]string{}} }

// kvFileChild performs one history on OpenDB; every write is enclosed in marks.
func kvFileChild(t *tracer) error {
	dir := filepath.Join(*scratch, "db")
	mark, err := os.Create(filepath.Join(*scratch, "MARK"))
	if err != nil {
		return err
	}
	r := &kvRun{rnd: t.rnd, vals: newVals(), keys: map[string]bool{}}
	open := func() string {
		fmt.Fprintf(mark, "O")
		db, err := openDB(dir)
		fmt.Fprintf(mark, "P")
		if err != nil {
			return err.Error()
		}
		r.db = db
		return ""
	}
	n := 0
	write := func(how string, ops interface{}, f func() error) {
		var err error
		fmt.Fprintf(mark, "B%d", n)
		p := guard(func() { err = f() })
		fmt.Fprintf(mark, "E%d", n)
		if p == "" && err != nil {
			p = err.Error()
		}
		t.emit(rec{"ev": "Write", "how": how, "ops": ops, "n": n, "o": rec{"err": p}})
		n++
	}
	for _, op := range readOps() {
		switch str(op, "op") {
		case "New":
			t.emit(rec{"ev": "New"})
			if e := open(); e != "" {
				return fmt.Errorf("OpenDB: %s", e)
			}
			t.emit(rec{"ev": "Opened"})
		case "Put":
			k := keyOf(op["k"])
			r.keys[string(k)] = true
			v := r.vals.bytes(r.rnd, str(op, "v"))
			write("Put", single("put", k, str(op, "v")), func() error { return r.db.Put(k, v) })
		case "Del":
			k := keyOf(op["k"])
			r.keys[string(k)] = true
			write("Delete", single("del", k, ""), func() error { return r.db.Delete(k) })
		case "Batch":
			ops := op["ops"].([]interface{})
			b := r.batch(ops)
			write("Batch", ops, func() error { return r.db.Write(b) })
		case "Reopen":
			o := rec{"err": "", "m": []rec{}}
			if err := r.db.Close(); err != nil {
				o["err"] = err.Error()
			}
			if e := open(); e != "" {
				o["err"] = "open: " + e
				t.emit(rec{"ev": "Reopen", "o": o})
				return nil
			}
			t.emit(rec{"ev": "Opened"})
			o["m"] = r.dump()
			t.emit(rec{"ev": "Reopen", "o": o})
		case "Get":
			k := keyOf(op["k"])
			r.keys[string(k)] = true
			ok, v := r.get(k)
			t.emit(rec{"ev": "Get", "k": op["k"], "o": rec{"ok": ok, "v": v}})
		case "Prefix", "Scan", "Walk":
			r.step(t, op)
		}
	}
	// what the names stand for
	vals := map[string]string{}
	for n, b := range r.vals.byName {
		vals[n] = fmt.Sprintf("%x", b)
	}
	t.emit(rec{"ev": "Dump", "o": rec{"m": r.dump()}})
	t.emit(rec{"ev": "vals", "vals": vals})
	r.db.Close()
	return nil
}

// fileOp is a recorded system call, or a mark.
type fileOp struct {
	kind, path, to string
	data           []byte
}

var (
	reCall = regexp.MustCompile(`^(\d+) +(\w+)\((.*)$`)
	reRet  = regexp.MustCompile(`\) += +(-?\d+)`)
	reStr  = regexp.MustCompile(`"((?:\\x[0-9a-f]{2})*)"`)
	reFd   = regexp.MustCompile(`(?:^|= )(\d+)<([^>]*)>`)
	reBack = regexp.MustCompile(`^(\d+) +<\.\.\. (\w+) resumed>(.*)$`)
)

func unhex(s string) string {
	b, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		fatal(err)
	}
	return b
}

// readStrace reads the recorded calls that change files below dir.
func readStrace(path, dir string) ([]fileOp, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []fileOp
	pending := map[string]string{}
	in := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := in.ReadString('\n')
		if line == "" && err != nil {
			return out, nil
		}
		line = strings.TrimSuffix(line, "\n")
		if m := reBack.FindStringSubmatch(line); m != nil {
			line = pending[m[1]+m[2]] + m[3]
			delete(pending, m[1]+m[2])
		} else if i := strings.Index(line, " <unfinished ...>"); i >= 0 {
			if m := reCall.FindStringSubmatch(line); m != nil {
				pending[m[1]+m[2]] = line[:i]
			}
			continue
		}
		m := reCall.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		call, args := m[2], m[3]
		rets := reRet.FindAllStringSubmatch(args, -1)
		if len(rets) == 0 {
			continue
		}
		ret, _ := strconv.Atoi(rets[len(rets)-1][1])
		if ret < 0 {
			continue
		}
		var strs []string
		for _, s := range reStr.FindAllStringSubmatch(args, -1) {
			strs = append(strs, unhex(s[1]))
		}
		fd := ""
		if m := reFd.FindStringSubmatch(args); m != nil {
			fd = unhex(m[2])
			if !strings.HasPrefix(m[2], `\x`) {
				fd = m[2]
			}
		}
		o := fileOp{}
		switch call {
		case "openat", "open", "creat":
			if len(strs) == 0 {
				continue
			}
			o.path = strs[0]
			switch {
			case strings.Contains(args, "O_TRUNC") || call == "creat":
				o.kind = "create"
			case strings.Contains(args, "O_CREAT"):
				o.kind = "ensure"
			default:
				continue
			}
		case "write", "pwrite64":
			if len(strs) == 0 {
				if strings.Contains(args, `""`) {
					continue
				}
				return nil, fmt.Errorf("cannot read %.200s", line)
			}
			o.kind, o.path, o.data = "write", fd, []byte(strs[0])[:ret]
			if call == "pwrite64" {
				return nil, fmt.Errorf("pwrite64 is not modelled: %.200s", line)
			}
		case "fsync", "fdatasync":
			o.kind, o.path = "sync", fd
		case "rename", "renameat", "renameat2":
			if len(strs) != 2 {
				return nil, fmt.Errorf("cannot read %.200s", line)
			}
			o.kind, o.path, o.to = "rename", strs[0], strs[1]
		case "unlink", "unlinkat":
			if len(strs) == 0 {
				continue
			}
			o.kind, o.path = "remove", strs[0]
		case "ftruncate":
			return nil, fmt.Errorf("ftruncate is not modelled: %.200s", line)
		default:
			continue
		}
		if strings.HasPrefix(o.path, dir+"/") || o.path == dir+"MARK" {
			out = append(out, o)
		}
	}
}

type fileDisk struct {
	files    map[string]*cfile
	unforced bool
}

func (d *fileDisk) apply(o fileOp) {
	base := filepath.Base(o.path)
	if base == "LOG" || base == "LOG.old" || base == "LOCK" {
		return
	}
	switch o.kind {
	case "create":
		d.files[o.path] = &cfile{}
	case "ensure":
		if d.files[o.path] == nil {
			d.files[o.path] = &cfile{}
		}
	case "write":
		if f := d.files[o.path]; f != nil {
			f.data = append(f.data, o.data...)
		}
	case "sync":
		if f := d.files[o.path]; f != nil {
			f.synced = len(f.data)
		}
	case "rename":
		if f := d.files[o.path]; f != nil {
			delete(d.files, o.path)
			d.files[o.to] = f
		}
		if filepath.Base(o.to) == "CURRENT" { // as in crashFS
			f := d.files[filepath.Join(filepath.Dir(o.to), strings.TrimSpace(string(d.files[o.to].data)))]
			if f != nil {
				if f.synced < len(f.data) {
					d.unforced = true
				}
				f.synced = len(f.data)
			}
		}
	case "remove":
		delete(d.files, o.path)
	}
}

func diskAt(ops []fileOp) *fileDisk {
	d := &fileDisk{files: map[string]*cfile{}}
	for _, o := range ops {
		d.apply(o)
	}
	return d
}

func kvFileSuite(t *tracer) error {
	t.histories(readOps(), func(t *tracer, id int, ops []rec) {
		home := filepath.Join(*scratch, fmt.Sprintf("h%d", id))
		if err := os.MkdirAll(home, 0700); err != nil {
			fatal(err)
		}
		defer os.RemoveAll(home)
		in := filepath.Join(home, "ops")
		var b []byte
		for _, op := range ops {
			l, _ := json.Marshal(op)
			b = append(append(b, l...), '\n')
		}
		if err := os.WriteFile(in, b, 0600); err != nil {
			fatal(err)
		}
		log := filepath.Join(home, "strace")
		cmd := exec.Command("strace", "-f", "-y", "-xx", "-s", "100000000", "-o", log, "-e",
			"trace=openat,open,creat,write,pwrite64,fsync,fdatasync,rename,renameat,renameat2,unlink,unlinkat,ftruncate",
			os.Args[0], "kvfile-child", "-in", in, "-out", filepath.Join(home, "trace"),
			"-seed", fmt.Sprint(*seed*31+int64(id)), "-scratch", home)
		if msg, err := cmd.CombinedOutput(); err != nil {
			fatal(fmt.Sprintf("strace: %v: %s", err, msg))
		}
		calls, err := readStrace(log, home)
		if err != nil {
			fatal(err)
		}
		r := &kvRun{rnd: t.rnd, vals: newVals()}
		var evs []rec
		f, err := os.Open(filepath.Join(home, "trace"))
		if err != nil {
			fatal(err)
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			var e rec
			if err := json.Unmarshal(sc.Bytes(), &e); err != nil {
				fatal(err)
			}
			if str(e, "ev") == "vals" {
				for n, v := range e["vals"].(map[string]interface{}) {
					bs := make([]byte, len(v.(string))/2)
					fmt.Sscanf(v.(string), "%x", &bs)
					r.vals.byName[n], r.vals.byVal[string(bs)] = bs, n
				}
				continue
			}
			evs = append(evs, e)
		}
		begin, end := map[string]int{}, map[string]int{}
		var opened []int
		for i, c := range calls {
			if filepath.Base(c.path) == "MARK" && c.kind == "write" {
				switch s := string(c.data); s[0] {
				case 'B':
					begin[s[1:]] = i
				case 'E':
					end[s[1:]] = i
				case 'O':
					opened = append(opened, i)
				}
			}
		}
		imgs := 0
		image := func(n int, cut func(int) int) rec {
			imgs++
			dir := filepath.Join(home, fmt.Sprintf("img%d", imgs))
			os.MkdirAll(dir, 0700)
			defer os.RemoveAll(dir)
			d := diskAt(calls[:n])
			var names []string
			for p := range d.files {
				names = append(names, p)
			}
			sort.Strings(names)
			for _, p := range names {
				f := d.files[p]
				if filepath.Dir(p) != filepath.Join(home, "db") {
					continue
				}
				if err := os.WriteFile(filepath.Join(dir, filepath.Base(p)), f.data[:f.synced+cut(len(f.data)-f.synced)], 0600); err != nil {
					fatal(err)
				}
			}
			db, err := leveldb.OpenFile(dir, nil)
			if err != nil {
				return rec{"err": strings.Replace(err.Error(), home, "", -1), "m": []rec{}}
			}
			defer db.Close()
			m := []rec{}
			it := db.NewIterator(nil, nil)
			for it.Next() {
				m = append(m, rec{"k": keyJSON(it.Key()), "v": r.vals.name(it.Value())})
			}
			it.Release()
			if err := it.Error(); err != nil {
				return rec{"err": err.Error(), "m": m}
			}
			return rec{"err": "", "m": m}
		}
		for _, e := range evs {
			switch str(e, "ev") {
			case "Opened":
				i := opened[0]
				opened = opened[1:]
				j := len(calls)
				for x := i + 1; x < len(calls); x++ {
					if filepath.Base(calls[x].path) == "MARK" {
						j = x
						break
					}
				}
				d := diskAt(calls[:i])
				d.unforced = false
				for _, o := range calls[i:j] {
					d.apply(o)
				}
				e["o"] = rec{"forced": !d.unforced}
			case "Write":
				n := fmt.Sprint(int(e["n"].(float64)))
				i, ok1 := begin[n]
				j, ok2 := end[n]
				if !ok1 || !ok2 {
					fatal("write without marks")
				}
				o := e["o"].(rec)
				var during, after []rec
				for x := i; x <= j; x++ {
					for k, c := range r.cuts() {
						if j-i > 6 && k != x%3 {
							continue
						}
						during = append(during, image(x, c))
					}
				}
				for _, c := range r.cuts() {
					after = append(after, image(j, c))
				}
				o["during"], o["after"] = dedup(during), dedup(after)
			}
			t.emit(e)
		}
	})
	return nil
}
