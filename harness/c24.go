package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"google.golang.org/protobuf/proto"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/server"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

func init() {
	checks["C24"] = check{level: "exploration",
		rule: histRule + "A case builds several instances with random option lists (loggers, in-memory, given and on-disk stores, some overridden by later ones, some unusable), drives each with its own history judged against its own model, and then reads every store back: through the instance, through another instance on the same store, through an instance on a copy of the data directory; stores which were not chosen hold nothing. " +
			"A second pool runs the real daemon: on data directories given plainly, relative to the home directory of a user of its own, by default, taken and unusable, on taken and malformed addresses. Non-trivial: a case with at least two instances and three acknowledged writes; distinct by final states.",
		floors: map[string]int64{"instances": 3000, "instances with data": 1200, "instances on the default store": 150, "data directories reopened": 250, "unusable configurations refused": 400, "stores not chosen": 200, "daemons": 40, "daemons refused": 20},
		run: func(r *Run) {
			// the development logger writes to standard error
			if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
				os.Stderr = null
			}
			r.CasesW(0, r.n(2500, 15000), 8, c24)
			r.CasesW(1000000, r.n(150, 1200), 6, c24daemon)
		}}
}

// recLogger counts the messages it is given.
type recLogger struct{ n int }

func (l *recLogger) Errorf(msg string, args ...any) { l.n++ }
func (l *recLogger) Warnf(msg string, args ...any)  { l.n++ }
func (l *recLogger) Infof(msg string, args ...any)  { l.n++ }
func (l *recLogger) Debugf(msg string, args ...any) { l.n++ }

// copyTree copies a directory which nobody is writing to.
func copyTree(from, to string) {
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		out, err := os.Create(dst)
		if err != nil {
			return err
		}
		defer out.Close()
		_, err = io.Copy(out, in)
		return err
	})
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// place is a store an instance can be told to use.
type place struct {
	kind byte // 'k' given store, 'd' directory, 'm' in memory
	kv   *mapKV
	dir  string
	w    *World
	h    *Hist
	open bool // a directory some instance has open
}

type inst24 struct {
	z    zanzi.Zanzi
	s    *embedded
	p    *place
	desc string
}

func c24(t *T) {
	root, err := os.MkdirTemp(t.run.Scratch, "inst")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(root)
	if err := os.WriteFile(filepath.Join(root, "file"), []byte("not a directory"), 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	var places []*place
	newPlace := func(kind byte) *place {
		p := &place{kind: kind, w: newWorld()}
		switch kind {
		case 'k':
			p.kv = newMapKV()
		case 'd':
			p.dir = filepath.Join(root, pick(t, []string{"d", "data dir", "a~b", "deep/er/est", ".hidden", "é", "x.db", "zanzi", "zanzi.db"})+fmt.Sprint(len(places)))
			if t.Chance(30) {
				os.MkdirAll(p.dir, 0o755)
			}
			if t.Chance(15) {
				p.dir += "/"
			}
		}
		p.h = newHist(t, p.w, t.Chance(30), allWeights)
		// the same names in every instance, so that what leaks from one to another collides
		p.h.junkPct = 4
		places = append(places, p)
		return p
	}
	var insts []*inst24
	given := func() *place {
		if t.Chance(25) {
			for _, p := range shuffled(t, places) {
				if p.kind == 'k' {
					return p
				}
			}
		}
		return newPlace('k')
	}
	build := func() {
		var opts []string
		var chosen *place
		var wantLog types.Logger
		silent := false
		var mute, handed []*recLogger
		var args []any
		bad, badLast := "", false
		n := pick(t, []int{0, 1, 1, 2, 2, 3, 4})
		if t.Chance(20) {
			n++
		}
		for i := 0; i < n; i++ {
			switch t.Intn(11) {
			case 0, 1:
				l := &recLogger{}
				handed = append(handed, l)
				args, wantLog, silent = append(args, zanzi.WithLogger(l)), l, false
				opts = append(opts, "logger")
			case 2:
				args, wantLog, silent = append(args, zanzi.WithDefaultLogger()), nil, false
				opts = append(opts, "default logger")
			case 3:
				l := &recLogger{}
				mute = append(mute, l)
				args, wantLog, silent = append(args, zanzi.WithoutLogger(l)), nil, true
				opts = append(opts, "no logger")
			case 4:
				args, wantLog, silent = append(args, zanzi.WithDevelopmentLogger()), nil, false
				opts = append(opts, "development logger")
			case 5:
				args, wantLog, silent = append(args, zanzi.WithDevelopmentConfig()), nil, false
				badLast, chosen = false, newPlace('m')
				opts = append(opts, "development config")
			case 6:
				args = append(args, zanzi.WithMemKVStore())
				badLast, chosen = false, newPlace('m')
				opts = append(opts, "in memory")
			case 7, 8:
				badLast, chosen = false, given()
				args = append(args, zanzi.WithKVStore(chosen.kv))
				opts = append(opts, "given store")
			case 9:
				if i < n-1 && t.idx%6 != 0 {
					continue // one that is overridden is never closed; keep these few
				}
				badLast, chosen = false, newPlace('d')
				args = append(args, zanzi.WithDefaultKVStore(chosen.dir))
				opts = append(opts, fmt.Sprintf("directory %q", chosen.dir))
			case 10:
				if !t.Chance(50) || bad != "" {
					continue
				}
				dir := filepath.Join(root, "file", pick(t, []string{"", "x", "x/y"}))
				for _, p := range shuffled(t, places) {
					if p.kind == 'd' && p.open && t.Chance(60) {
						dir = p.dir // in use
						break
					}
				}
				bad, badLast = dir, true
				args = append(args, zanzi.WithDefaultKVStore(dir))
				opts = append(opts, fmt.Sprintf("unusable directory %q", dir))
			}
		}
		t.Log("New(%s)", strings.Join(opts, ", "))
		z, err := newWith(args)
		if bad != "" && (err != nil || badLast) {
			// one that a later option overrides may or may not be looked at
			if err == nil {
				t.Failf("New(%s) succeeded although %s cannot hold the data", strings.Join(opts, ", "), bad)
			}
			t.Count("unusable configurations refused", 1)
			return
		}
		if err != nil {
			t.Failf("New(%s) fails: %v", strings.Join(opts, ", "), err)
		}
		if chosen == nil {
			chosen = newPlace('m')
			t.Count("instances on the default store", 1)
		}
		chosen.open = true
		lg := z.GetLogger()
		if lg == nil {
			t.Failf("New(%s): the instance has no logger", strings.Join(opts, ", "))
		}
		if wantLog != nil && lg != wantLog {
			t.Failf("New(%s): GetLogger is not the logger given last", strings.Join(opts, ", "))
		}
		for _, l := range handed {
			if wantLog == nil && lg == types.Logger(l) {
				t.Failf("New(%s): GetLogger is a logger which a later option replaced", strings.Join(opts, ", "))
			}
		}
		for _, m := range mute {
			if lg == types.Logger(m) {
				t.Failf("New(%s): an instance without logger has one", strings.Join(opts, ", "))
			}
			if lg.Infof("quiet?"); silent && m.n != 0 {
				t.Failf("New(%s): an instance without logger writes to it", strings.Join(opts, ", "))
			}
		}
		t.Count("instances", 1)
		insts = append(insts, &inst24{z, fromZanzi(z), chosen, strings.Join(opts, ", ")})
	}
	for k := 2 + t.Intn(5); k > 0; k-- {
		build()
		for i := t.Intn(20); i > 0 && len(insts) > 0; i-- {
			in := pick(t, insts)
			step(t, in.s, in.p.w, in.p.h.next())
		}
	}
	// the histories go on side by side
	acked := 0
	for i := 20 + t.Intn(60); i > 0 && len(insts) > 0; i-- {
		in := pick(t, insts)
		before := in.p.w.render()
		step(t, in.s, in.p.w, in.p.h.next())
		if in.p.w.render() != before {
			acked++
		}
	}
	// every instance holds what it was given, and nothing of the others
	used := map[*place]bool{}
	for _, in := range insts {
		t.Log("reading back New(%s)", in.desc)
		sweep(t, in.s, in.p.w)
		used[in.p] = true
		if len(in.p.w.pols) > 0 {
			t.Count("instances with data", 1)
		}
	}
	var sigs []string
	for i, p := range places {
		sigs = append(sigs, p.w.render())
		switch p.kind {
		case 'k':
			t.Log("reading back the store given as place %d", i)
			if !used[p] {
				t.Count("stores not chosen", 1)
				if n := len(p.kv.snapshot()); n != 0 {
					t.Failf("a store overridden by a later option holds %d keys", n)
				}
				continue
			}
			if len(p.w.pols) > 0 && len(p.kv.snapshot()) == 0 {
				t.Failf("the store the instance was given holds none of its data")
			}
			sweep(t, mustEmbedded(t, p.kv.clone()), p.w)
		case 'd':
			if _, err := os.Stat(p.dir); err != nil {
				if !errors.Is(err, os.ErrNotExist) {
					panic("harness: " + err.Error())
				}
				if len(p.w.pols) > 0 {
					t.Failf("the directory %q does not exist although data was written to it", p.dir)
				}
				continue // an option after an unusable one
			}
			t.Log("reading back the directory %q", p.dir)
			cp := filepath.Join(root, fmt.Sprintf("copy%d", i))
			copyTree(strings.TrimSuffix(p.dir, "/"), cp)
			z, err := zanzi.New(zanzi.WithLogger(&types.NoopLogger{}), zanzi.WithDefaultKVStore(cp))
			if err != nil {
				t.Failf("the data directory %q does not open again: %v", p.dir, err)
			}
			sweep(t, fromZanzi(z), p.w)
			closeDisk(&z)
			t.Count("data directories reopened", 1)
			if !used[p] {
				t.Count("stores not chosen", 1)
			}
		}
	}
	c24server(t, insts)
	for _, in := range insts {
		closeDisk(&in.z)
	}
	if len(insts) >= 2 && acked >= 3 {
		t.Nontrivial(strings.Join(sigs, "\n"))
		t.Sample(map[string]any{"instances": len(insts), "stores": len(places), "first": insts[0].desc})
	}
}

// c24server gives the gRPC server usable, taken and malformed addresses.
func c24server(t *T, insts []*inst24) {
	if len(insts) == 0 || !t.Chance(25) {
		return
	}
	in := pick(t, insts)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer l.Close()
	addr := pick(t, []string{l.Addr().String(), "127.0.0.1:notaport", "no port", "127.0.0.1:99999", "127.0.0.1", "[::1"})
	t.Log("NewServer(%q)", addr)
	s := server.NewServer(addr)
	if err := s.Init(&in.z); err == nil {
		t.Failf("a server for the address %q initializes although nobody can be served there", addr)
	}
	t.Count("unusable configurations refused", 1)
	sweep(t, in.s, in.p.w)
}

// newWith calls New with options collected as any: their type is not exported.
func newWith(args []any) (zanzi.Zanzi, error) { return callNew(zanzi.New, args) }

func callNew[O any](f func(...O) (zanzi.Zanzi, error), args []any) (zanzi.Zanzi, error) {
	var opts []O
	for _, a := range args {
		opts = append(opts, a.(O))
	}
	return f(opts...)
}

// ---------------------------------------------------------------- daemon

// proc24 is zanzid run as a user of its own with a scratch home.
type proc24 struct {
	cmd  *exec.Cmd
	out  *bytes.Buffer
	done chan struct{}
	err  error
}

const uid24 = 61234 // has no entry in the user database

func launch24(t *T, asUser bool, home, cwd string, args ...string) *proc24 {
	d := &proc24{out: &bytes.Buffer{}, done: make(chan struct{})}
	d.cmd = exec.Command(zanzidPath(t.run), args...)
	d.cmd.Env = []string{"HOME=" + home, "USER=verif", "PATH=/usr/bin:/bin"}
	d.cmd.Dir = cwd
	d.cmd.Stdout, d.cmd.Stderr = &tailWriter{d.out, 1 << 16}, &tailWriter{d.out, 1 << 16}
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if asUser {
		d.cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uid24, Gid: uid24}
	}
	if err := d.cmd.Start(); err != nil {
		if asUser {
			return nil
		}
		panic("harness: cannot start zanzid: " + err.Error())
	}
	go func() { d.err = d.cmd.Wait(); close(d.done) }()
	return d
}

func (d *proc24) stop() {
	d.cmd.Process.Kill()
	<-d.done
}

// serves waits until the daemon accepts connections or has ended.
func (d *proc24) serves(t *T, addr string) bool {
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		select {
		case <-d.done:
			return false
		default:
		}
		if c, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
			c.Close()
			select {
			case <-d.done:
				return false
			default:
				return true
			}
		}
	}
	t.Failf("zanzid neither served nor ended within a minute: %s", trunc(d.out.String(), 2000))
	return false
}

func c24daemon(t *T) {
	root, err := os.MkdirTemp(t.run.Scratch, "daemon")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(root)
	home, cwd := filepath.Join(root, "home"), filepath.Join(root, "cwd")
	for _, d := range []string{root, home, cwd} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic("harness: " + err.Error())
		}
		os.Chmod(d, 0o755)
		os.Chown(d, uid24, uid24)
	}
	// the user must reach the daemon and its directories, all inside the scratch directory of the run
	for _, d := range []string{t.run.Scratch, filepath.Dir(t.run.Scratch)} {
		os.Chmod(d, 0o711)
	}
	os.WriteFile(filepath.Join(cwd, "file"), []byte("x"), 0o644)

	// where the data has to be found
	flag, dir := "", ""
	asUser := true
	switch t.Intn(7) {
	case 0:
		flag, dir = "~/data", filepath.Join(home, "data")
	case 1:
		flag, dir = "~/a~b/c", filepath.Join(home, "a~b", "c")
	case 2:
		flag, dir = "(default)", filepath.Join(home, ".zanzi")
	case 3:
		flag, dir = "rel/dir", filepath.Join(cwd, "rel", "dir")
		asUser = t.Chance(50)
	case 4:
		flag, dir = "x~y", filepath.Join(cwd, "x~y")
		asUser = t.Chance(50)
	case 5:
		dir = filepath.Join(root, "home", "abs")
		flag = dir
		asUser = t.Chance(50)
	case 6:
		flag, dir = "~", home
	}
	args := func(addr string) []string {
		a := []string{"--address", addr}
		if flag != "(default)" {
			a = append(a, "--data_dir", flag)
		}
		return a
	}
	start := func() (*proc24, string) {
		for try := 0; try < 10; try++ {
			addr := daemonAddr()
			t.Log("zanzid %s", strings.Join(args(addr), " "))
			d := launch24(t, asUser, home, cwd, args(addr)...)
			if d == nil {
				return nil, ""
			}
			if d.serves(t, addr) {
				return d, addr
			}
			out := d.out.String()
			if strings.Contains(out, "address already in use") {
				continue
			}
			if strings.Contains(out, "permission denied") && asUser {
				return nil, "" // the sandbox does not let the user reach the scratch directory
			}
			t.Failf("zanzid %s does not serve: %s", strings.Join(args(addr), " "), trunc(out, 2000))
		}
		panic("harness: no free port")
	}
	d, addr := start()
	if d == nil {
		t.Count("users not available", 1)
		flag, dir = filepath.Join(root, "home", "abs"), filepath.Join(root, "home", "abs")
		asUser = false
		d, addr = start()
	}
	defer func() { d.stop() }()
	t.Count("daemons", 1)
	if asUser {
		t.Count("daemons of a user of their own", 1)
	}
	w := newWorld()
	h := newHist(t, w, t.Chance(30), allWeights)
	run := func(n int) {
		cl, err := dialRemote(addr)
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer cl.conn.Close()
		for i := 0; i < n; i++ {
			step(t, cl, w, wire(h.next()))
		}
		sweep(t, cl, w)
	}
	run(30 + t.Intn(40))

	// others that cannot be: on the same directory, on the same address, on a file
	for _, k := range shuffled(t, []int{0, 1, 2, 3})[:1+t.Intn(3)] {
		var a []string
		what := ""
		free := daemonAddr()
		switch k {
		case 0:
			a, what = []string{"--address", free, "--data_dir", dir}, "a data directory in use"
		case 1:
			a, what, free = []string{"--address", addr, "--data_dir", filepath.Join(home, "other")}, "an address in use", ""
		case 2:
			a, what = []string{"--address", free, "--data_dir", "file/x"}, "a data directory inside a file"
		case 3:
			a, what, free = []string{"--address", pick(t, []string{"127.0.0.1:notaport", "noport", "127.0.0.1:99999"}), "--data_dir", filepath.Join(home, "other2")}, "a malformed address", ""
		}
		t.Log("zanzid %s", strings.Join(a, " "))
		o := launch24(t, asUser, home, cwd, a...)
		if o == nil {
			continue
		}
		end := time.After(60 * time.Second)
		for ended := false; !ended; {
			select {
			case <-o.done:
				ended = true
			case <-end:
				o.stop()
				t.Failf("zanzid on %s keeps running: %s", what, trunc(o.out.String(), 1000))
			case <-time.After(10 * time.Millisecond):
				if free == "" {
					continue
				}
				if c, err := net.DialTimeout("tcp", free, time.Second); err == nil {
					c.Close()
					o.stop()
					t.Failf("zanzid on %s serves", what)
				}
			}
		}
		if o.cmd.ProcessState.ExitCode() == 0 {
			t.Failf("zanzid on %s ends as if nothing was wrong: %s", what, trunc(o.out.String(), 1000))
		}
		t.Count("daemons refused", 1)
		run(3)
	}

	// the data is where it was told to be, and only there
	d.stop()
	cp := filepath.Join(root, "copy")
	if _, err := os.Stat(dir); err != nil {
		t.Failf("zanzid --data_dir %s: %v", flag, err)
	}
	copyTree(dir, cp)
	z, err := zanzi.New(zanzi.WithLogger(&types.NoopLogger{}), zanzi.WithDefaultKVStore(cp))
	if err != nil {
		t.Failf("the data directory of zanzid does not open: %v", err)
	}
	sweep(t, fromZanzi(z), w)
	closeDisk(&z)
	allowed := map[string]bool{dir: true, filepath.Join(home, "other"): true, filepath.Join(home, "other2"): true, cp: true, filepath.Join(cwd, "file"): true}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || allowed[p] {
			if fi != nil && fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if !fi.IsDir() {
			t.Failf("zanzid --data_dir %s wrote %s", flag, strings.TrimPrefix(p, root))
		}
		return nil
	})
	// and is there for the next one
	d, addr = start()
	if d == nil {
		panic("harness: the user is gone")
	}
	run(5)
	if len(w.pols) > 0 {
		t.Nontrivial(flag + w.render())
		t.Sample(map[string]any{"data_dir": flag, "as_user": asUser})
	}
}

// wire is the request as it arrives over gRPC: text that is not UTF-8 cannot be sent.
func wire(req proto.Message) proto.Message {
	if _, err := proto.Marshal(req); err != nil {
		return &api.ListPolicyIdsRequest{}
	}
	return req
}
