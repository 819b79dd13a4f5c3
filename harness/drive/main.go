// drive runs the gledger binary on cases (one JSON object per line) and writes
// them back with what was observed.  A case:
//
//	{"id", "variants": [{"files": {path: [line...]}, "root", "eol", "final", "from", "bytes"}],
//	 "runs": [{"variant", "cmd", "args", "begin", "end", "current", "flat",
//	           "collapse", "zero", "tz", "env", "expect"}]}
//
// Every case has a scratch directory of its own, in which its files are
// materialised and the binary runs.  In file texts and arguments "/DIR/"
// stands for that directory.  A variant with "from": k > 0 has as its root the
// output of run k.  A run with "expect" is compared here; the others are
// judged by TLC (Trace.tla).
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"
)

type Expect struct {
	Fails bool       `json:"fails"`
	Usage bool       `json:"usage"` // the invocation itself is wrong
	Chain []string   `json:"chain"`
	Lines [][]string `json:"lines"`
}

type Obs struct {
	Code  int      `json:"code"`
	Lines []string `json:"lines"`
	Errs  int      `json:"errs"` // lines on standard error
}

type Run struct {
	Variant  int      `json:"variant"`
	Cmd      string   `json:"cmd"`
	Alias    string   `json:"alias,omitempty"`
	Args     []string `json:"args"`
	Begin    string   `json:"begin"`
	End      string   `json:"end"`
	Current  bool     `json:"current"`
	Flat     bool     `json:"flat"`
	Collapse bool     `json:"collapse"`
	Zero     bool     `json:"zero"`
	TZ       string   `json:"tz"`
	Env      bool     `json:"env"`            // journal given by $LEDGER_FILE
	Long     bool     `json:"long"`           // long option names
	Argv     []string `json:"argv,omitempty"` // the words themselves, instead of all of the above
	Ledger   string   `json:"ledger"`         // then $LEDGER_FILE, unless ""
	SameAs   int      `json:"sameAs"`
	Loose    bool     `json:"loose"`
	Moment   []int    `json:"moment"` // year, month, day, second (UTC) the run is told it is; empty: the real time
	Today    []int    `json:"today"`
	Expect   *Expect  `json:"expect,omitempty"`
	Obs      *Obs     `json:"obs"`
	Bad      string   `json:"bad,omitempty"` // set when Expect is not met
}

type Variant struct {
	Files map[string][]string `json:"files"`
	Root  string              `json:"root"`
	EOL   string              `json:"eol,omitempty"`
	NoEnd bool                `json:"noend,omitempty"`
	From  int                 `json:"from"`
	Raw   map[string]string   `json:"raw,omitempty"` // Go-quoted bytes, instead of lines
	// names that are there but cannot be read: "directory", "loop" and
	// "dangling" links, "unreadable" (then the program runs as another user)
	Special map[string]string `json:"special,omitempty"`
}

type Case struct {
	ID       string    `json:"id"`
	Group    string    `json:"group"`
	Variants []Variant `json:"variants"`
	Runs     []Run     `json:"runs"`
	Touched  bool      `json:"touched"` // files were created, changed or removed
	Hang     bool      `json:"hang,omitempty"`
}

var (
	binary  = flag.String("bin", "", "gledger binary")
	in      = flag.String("in", "", "cases")
	out     = flag.String("out", "", "observed cases")
	scratch = flag.String("scratch", "", "scratch directory")
	workers = flag.Int("workers", 8, "")
	timeout = flag.Duration("timeout", 20*time.Second, "per run")
	failing = flag.Bool("failing", false, "write only the cases with an unmet expectation")
)

// executions counts the times the binary ran.
var executions int64

const dirMark = "/DIR/"

func snapshot(dir string) string {
	h := sha256.New()
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			fmt.Fprintf(h, "%s %v\n", p, err)
			return nil
		}
		i, err := d.Info()
		if err != nil {
			fmt.Fprintf(h, "%s %v\n", p, err)
			return nil
		}
		fmt.Fprintf(h, "%s %v %v %d\n", p, d.Type(), i.Mode(), i.ModTime().UnixNano())
		if d.Type().IsRegular() {
			b, _ := os.ReadFile(p)
			fmt.Fprintf(h, "%d %v %x\n", len(b), i.Mode(), sha256.Sum256(b))
		}
		return nil
	})
	return fmt.Sprintf("%x", h.Sum(nil))
}

// clean makes text of bytes, every invalid byte becoming U+FFFD.
func clean(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

func text(v Variant, lines []string, dir string) string {
	eol := v.EOL
	if eol == "" {
		eol = "\n"
	}
	s := strings.Join(lines, eol)
	if !v.NoEnd && len(lines) > 0 {
		s += eol
	}
	return strings.ReplaceAll(s, dirMark, dir+"/")
}

const otherUser = 65534

// another is whether the program can be run as another user here.
var another bool

func findAnother() {
	if os.Getuid() != 0 {
		return
	}
	cmd := exec.Command(*binary, "version")
	cmd.Dir = *scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: otherUser, Gid: otherUser}}
	another = cmd.Run() == nil
}

func unreadable(v *Variant) bool {
	for _, kind := range v.Special {
		if kind == "unreadable" {
			return another
		}
	}
	return false
}

// special makes the names that cannot be read; where there is no other user,
// an unreadable file is left out, which is to the same effect.
func special(v *Variant, dir string) error {
	for name, kind := range v.Special {
		full := filepath.Join(dir, name)
		if !strings.HasPrefix(full, dir+"/") {
			return fmt.Errorf("file %q is outside the scratch directory", name)
		}
		if err := os.MkdirAll(filepath.Dir(full), 0o755); err != nil {
			return err
		}
		var err error
		switch {
		case kind == "directory":
			err = os.MkdirAll(full, 0o755)
		case kind == "loop":
			err = os.Symlink(filepath.Base(full), full)
		case kind == "dangling":
			err = os.Symlink("not there", full)
		case kind == "unreadable" && another:
			err = os.WriteFile(full, []byte("; secret\n"), 0)
		}
		if err != nil {
			return err
		}
	}
	if !unreadable(v) {
		return nil
	}
	return filepath.WalkDir(dir, func(p string, _ fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		return os.Lchown(p, otherUser, otherUser)
	})
}

func materialise(c *Case, v *Variant, dir string) error {
	if v.From > 0 {
		v.Files = map[string][]string{v.Root: c.Runs[v.From-1].Obs.Lines}
	}
	put := func(p, s string) error {
		if strings.HasPrefix(p, dirMark) {
			p = p[len(dirMark):]
		}
		full := filepath.Join(dir, p)
		if !strings.HasPrefix(full, dir+"/") {
			return fmt.Errorf("file %q is outside the scratch directory", p)
		}
		if err := os.MkdirAll(filepath.Dir(full), 0o755); err != nil {
			return err
		}
		// of any mode, so that one that is changed is seen
		sum := len(p)
		for _, b := range []byte(p) {
			sum += int(b)
		}
		mode := []os.FileMode{0o644, 0o600, 0o444, 0o640, 0o755}[sum%5]
		if err := os.WriteFile(full, []byte(s), 0o644); err != nil {
			return err
		}
		return os.Chmod(full, mode)
	}
	for p, lines := range v.Files {
		if _, raw := v.Raw[p]; raw {
			continue
		}
		if err := put(p, text(*v, lines, dir)); err != nil {
			return err
		}
	}
	for p, q := range v.Raw {
		s, err := strconv.Unquote(q)
		if err != nil {
			return err
		}
		if err := put(p, s); err != nil {
			return err
		}
	}
	return special(v, dir)
}

func told(m []int) time.Time {
	return time.Date(m[0], time.Month(m[1]), m[2], 0, 0, m[3], 0, time.UTC)
}

func today(tz string, moment []int) ([]int, error) {
	loc := time.UTC
	if tz != "" {
		l, err := time.LoadLocation(tz)
		if err != nil {
			return nil, err
		}
		loc = l
	}
	n := time.Now().In(loc)
	if len(moment) == 4 {
		n = told(moment).In(loc)
	}
	return []int{n.Year(), int(n.Month()), n.Day()}, nil
}

func same(a, b []int) bool { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2] }

func arguments(r Run, root string) []string {
	if len(r.Argv) > 0 {
		return append([]string(nil), r.Argv...)
	}
	name := func(short, long string) string {
		if r.Long || short == "" {
			return "--" + long
		}
		return "-" + short
	}
	cmd := r.Cmd
	if r.Alias != "" {
		cmd = r.Alias
	}
	a := []string{cmd}
	if !r.Env {
		a = append(a, name("f", "file"), root)
	}
	if r.Begin != "" {
		a = append(a, name("b", "begin"), r.Begin)
	}
	if r.End != "" {
		a = append(a, name("e", "end"), r.End)
	}
	if r.Current {
		a = append(a, name("c", "current"))
	}
	if r.Flat {
		a = append(a, name("F", "flatten"))
	}
	if r.Collapse {
		a = append(a, name("C", "collapse"))
	}
	if r.Zero {
		a = append(a, name("Z", "show-zero"))
	}
	a = append(a, "--")
	return append(a, r.Args...)
}

type capped struct{ bytes.Buffer }

func (c *capped) Write(p []byte) (int, error) {
	if c.Len() > 64<<20 {
		return 0, fmt.Errorf("too much output")
	}
	return c.Buffer.Write(p)
}

// limitMemory stops a run that goes on reading for ever before it takes all
// there is; it then ends as one that crashes.
func limitMemory(pid int) {
	limit := syscall.Rlimit{Cur: 2 << 30, Max: 2 << 30}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), syscall.RLIMIT_DATA, uintptr(unsafe.Pointer(&limit)), 0, 0, 0)
}

// once runs the binary; hang reports that it had to be stopped.
func once(r Run, root, dir string, other bool) (obs *Obs, hang bool, err error) {
	realRoot := strings.ReplaceAll(root, dirMark, dir+"/")
	args := arguments(r, realRoot)
	for i := range args {
		args[i] = strings.ReplaceAll(args[i], dirMark, dir+"/")
	}
	atomic.AddInt64(&executions, 1)
	ctx, cancel := context.WithTimeout(context.Background(), *timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, *binary, args...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "TMPDIR=" + dir, "PATH=/usr/bin:/bin", "GOMAXPROCS=2"}
	if zi := os.Getenv("ZONEINFO"); zi != "" {
		cmd.Env = append(cmd.Env, "ZONEINFO="+zi)
	}
	if r.TZ != "" {
		cmd.Env = append(cmd.Env, "TZ="+r.TZ)
	} else {
		cmd.Env = append(cmd.Env, "TZ=UTC")
	}
	if len(r.Moment) == 4 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_NOW=%d", told(r.Moment).Unix()))
	}
	if len(r.Argv) > 0 && r.Ledger != "" {
		cmd.Env = append(cmd.Env, "LEDGER_FILE="+strings.ReplaceAll(r.Ledger, dirMark, dir+"/"))
	} else if r.Env {
		cmd.Env = append(cmd.Env, "LEDGER_FILE="+realRoot)
	}
	var stdout, stderr capped
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	cmd.WaitDelay = 5 * time.Second
	if other {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: otherUser, Gid: otherUser}}
	}
	if err = cmd.Start(); err == nil {
		limitMemory(cmd.Process.Pid)
		err = cmd.Wait()
	}
	code := 0
	if err != nil {
		if ctx.Err() != nil {
			return &Obs{Code: 124, Lines: []string{"<did not terminate>"}}, true, nil
		}
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return nil, false, err
		}
		code = ee.ExitCode()
	}
	s := clean(strings.ReplaceAll(stdout.String(), dir+"/", dirMark))
	lines := []string{}
	if s != "" {
		if strings.HasSuffix(s, "\n") {
			s = s[:len(s)-1]
		} else {
			s += "<no line end>"
		}
		lines = strings.Split(s, "\n")
	}
	if (r.Cmd == "statistics" || len(r.Argv) > 0) && len(r.Moment) == 0 {
		for i, l := range lines {
			if strings.HasPrefix(l, "First transaction:") || strings.HasPrefix(l, "Last transaction:") {
				if k := strings.Index(l, " ("); k >= 0 {
					lines[i] = l[:k]
				}
			}
		}
	}
	if code == 2 && strings.Contains(stderr.String(), "goroutine ") {
		first := strings.SplitN(stderr.String(), "\n", 2)[0]
		lines = append(lines, "<crashed: "+clean(first)+">")
	}
	errs := strings.Count(stderr.String(), "\n")
	return &Obs{Code: code, Lines: lines, Errs: errs}, false, nil
}

func observe(r *Run, root, dir string, other bool) (hang bool, err error) {
	for try := 0; ; try++ {
		before, err := today(r.TZ, r.Moment)
		if err != nil {
			return false, err
		}
		obs, h, err := once(*r, root, dir, other)
		if err != nil {
			return false, err
		}
		after, err := today(r.TZ, r.Moment)
		if err != nil {
			return false, err
		}
		if same(before, after) || try > 3 {
			r.Today, r.Obs = before, obs
			return h, nil
		}
	}
}

func meets(e *Expect, o *Obs) string {
	if e.Usage {
		if o.Code != 1 || len(o.Lines) > 3 || len(o.Lines)+o.Errs == 0 {
			return "not an error about the invocation"
		}
		return ""
	}
	if e.Fails {
		if o.Code != 0 && o.Code != 1 {
			return fmt.Sprintf("exit code %d", o.Code)
		}
		if len(o.Lines) <= len(e.Chain) || len(o.Lines) > len(e.Chain)+3 {
			return "not an error message"
		}
		for i := range e.Chain {
			if o.Lines[i] != e.Chain[i] {
				return fmt.Sprintf("line %d of the error: expected %q, got %q", i+1, e.Chain[i], o.Lines[i])
			}
		}
		return ""
	}
	if o.Code != 0 {
		return fmt.Sprintf("exit code %d", o.Code)
	}
	for i, set := range e.Lines {
		if i >= len(o.Lines) {
			return fmt.Sprintf("output ends before line %d: %q", i+1, set)
		}
		ok := len(set) == 0
		for _, s := range set {
			ok = ok || s == o.Lines[i]
		}
		if !ok {
			return fmt.Sprintf("line %d: expected %q, got %q", i+1, set, o.Lines[i])
		}
	}
	if len(o.Lines) > len(e.Lines) {
		return fmt.Sprintf("unexpected line %d: %q", len(e.Lines)+1, o.Lines[len(e.Lines)])
	}
	return ""
}

func do(c *Case, worker, n int) error {
	base := filepath.Join(*scratch, fmt.Sprintf("w%d-%d", worker, n))
	defer os.RemoveAll(base)
	dir := ""
	print := ""
	at := 0
	for i := range c.Runs {
		r := &c.Runs[i]
		if r.Variant == 0 {
			r.Variant = 1
		}
		if r.Args == nil {
			r.Args = []string{}
		}
		if r.Moment == nil {
			r.Moment = []int{}
		}
		if r.Variant != at {
			if dir != "" && snapshot(dir) != print {
				c.Touched = true
			}
			at = r.Variant
			dir = filepath.Join(base, fmt.Sprintf("v%d", at))
			if err := os.MkdirAll(dir, 0o755); err != nil {
				return err
			}
			if err := materialise(c, &c.Variants[at-1], dir); err != nil {
				return err
			}
			print = snapshot(dir)
		}
		hang, err := observe(r, c.Variants[at-1].Root, dir, unreadable(&c.Variants[at-1]))
		if err != nil {
			return err
		}
		if hang {
			c.Hang = true
		}
		if r.Expect != nil {
			r.Bad = meets(r.Expect, r.Obs)
		}
	}
	if dir != "" && snapshot(dir) != print {
		c.Touched = true
	}
	return nil
}

func main() {
	flag.Parse()
	findAnother()
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	f, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	of, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := bufio.NewWriter(of)
	type job struct {
		n    int
		line []byte
	}
	type res struct {
		n    int
		line []byte
		bad  bool
		err  error
	}
	jobs, results := make(chan job, 64), make(chan res, 64)
	var wg sync.WaitGroup
	var hangs int32
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := range jobs {
				if atomic.LoadInt32(&hangs) >= 4 {
					continue // the remaining cases are skipped
				}
				var c Case
				err := json.Unmarshal(j.line, &c)
				if err == nil {
					err = do(&c, i, j.n)
				}
				bad := c.Touched || c.Hang
				if c.Hang {
					atomic.AddInt32(&hangs, 1)
				}
				for _, r := range c.Runs {
					bad = bad || r.Bad != ""
				}
				var b bytes.Buffer
				if err == nil {
					enc := json.NewEncoder(&b)
					enc.SetEscapeHTML(false)
					err = enc.Encode(c)
				}
				results <- res{j.n, b.Bytes(), bad, err}
			}
		}(i)
	}
	go func() {
		r := bufio.NewReaderSize(f, 1<<20)
		for n := 0; ; n++ {
			line, err := r.ReadBytes('\n')
			if len(bytes.TrimSpace(line)) > 0 {
				jobs <- job{n, line}
			}
			if err == io.EOF {
				break
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
		close(jobs)
		wg.Wait()
		close(results)
	}()
	var all []res
	count := 0
	for r := range results {
		if r.err != nil {
			fmt.Fprintf(os.Stderr, "case %d: %v\n", r.n, r.err)
			os.Exit(3)
		}
		count++
		if !*failing || r.bad {
			all = append(all, r)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].n < all[j].n })
	for _, r := range all {
		w.Write(r.line)
	}
	w.Flush()
	of.Close()
	fmt.Printf("%d cases, %d written, %d runs\n", count, len(all), atomic.LoadInt64(&executions))
}
