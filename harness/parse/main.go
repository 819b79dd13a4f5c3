// parse runs cases against package parser as a library: it gives journals to
// Parser.Parse through readers that deliver their bytes in different ways or
// fail, with handlers that may be missing or refuse, and records what the
// handlers were given and the error returned (see spec/Handlers.tla).
// It is built inside /repo's module by a build overlay.
//
// In: one case per line; out: the same with, for every plan, the distinct
// observations.  Where the plan says what is allowed, they are compared here
// and bad is set.  Lines that TLC printed may be "CASE {...}" as a quoted
// string; its other lines are passed on.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/rikchilvers/gledger/journal"
	"github.com/rikchilvers/gledger/parser"
)

type posting struct {
	Account   string   `json:"account"`
	Commodity string   `json:"commodity"`
	Quantity  string   `json:"quantity"`
	Comments  []string `json:"comments"`
}

type entry struct {
	Kind     string    `json:"kind"`
	Day      string    `json:"day"`
	State    string    `json:"state"`
	Payee    string    `json:"payee"`
	Note     string    `json:"note"`
	Notes    []string  `json:"notes"`
	Postings []posting `json:"postings"`
	File     string    `json:"file"`
}

type outcome struct {
	Calls []entry  `json:"calls"`
	Kind  string   `json:"kind"`
	Chain []string `json:"chain"`
}

type obs struct {
	Calls []entry  `json:"calls"`
	Kind  string   `json:"kind"` // none, reader, handler, journal
	Lines []string `json:"lines"`
	Sound bool     `json:"sound"` // links are right, nothing changed after delivery
	How   string   `json:"how"`
}

type plan struct {
	Given   []string  `json:"given"`
	Refuse  int       `json:"refuse"`
	Cut     int       `json:"cut"`
	Allowed []outcome `json:"allowed,omitempty"`
	Obs     []obs     `json:"obs"`
	Bad     string    `json:"bad,omitempty"`
}

type kase struct {
	ID    string              `json:"id"`
	Files map[string][]string `json:"files"`
	Root  string              `json:"root"`
	EOL   string              `json:"eol,omitempty"`
	NoEnd bool                `json:"noend,omitempty"`
	Plans []plan              `json:"plans"`
}

var errReader = errors.New("the reader fails")
var errHandler = errors.New("the handler refuses")

// reader delivers chunks of at most sizes[i%len] bytes (0: an empty read).
type reader struct {
	data     []byte
	sizes    []int
	with     bool // the end or error comes with the last bytes
	end      error
	after    []byte // delivered after the error, if it passes
	calls    int
	finished bool
}

func (r *reader) Read(p []byte) (int, error) {
	if r.finished {
		if r.after != nil && r.end != io.EOF {
			r.data, r.after, r.end, r.finished = r.after, nil, io.EOF, false
		} else {
			return 0, r.end
		}
	}
	n := r.sizes[r.calls%len(r.sizes)]
	r.calls++
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && (r.with || n == 0) {
		r.finished = true
		return n, r.end
	}
	return n, nil
}

func list(q []string) []string { return append([]string{}, q...) }

func postings(q []*journal.Posting) []posting {
	out := []posting{}
	for _, p := range q {
		if p.AccountPath == journal.BudgetRootID {
			continue // how the budget balances its entries is its own affair
		}
		x := posting{Account: p.AccountPath, Comments: list(p.Comments), Quantity: "none"}
		if p.Amount != nil {
			x.Commodity, x.Quantity = p.Amount.Commodity, p.Amount.DisplayableQuantity(false)
		}
		out = append(out, x)
	}
	return out
}

func day(t time.Time) string {
	if t.Hour() != 0 || t.Minute() != 0 || t.Second() != 0 || t.Nanosecond() != 0 {
		return t.String()
	}
	return t.Format("2006-01-02")
}

func ofTransaction(t *journal.Transaction, file string) entry {
	return entry{Kind: "transaction", Day: day(t.Date), State: journal.StateToString(t.State), Payee: t.Payee,
		Note: t.HeaderNote, Notes: list(t.Notes), Postings: postings(t.Postings), File: file}
}

func ofAllocation(t *journal.PeriodicTransaction, file string) entry {
	e := entry{Kind: "allocation", State: " ", Notes: list(t.Transaction.Notes),
		Postings: postings(t.Transaction.Postings), File: file}
	if !t.Period.StartDate.IsZero() {
		e.Day = day(t.Period.StartDate)
	}
	if t.Period.Interval != journal.PNone {
		e.Day += " " + t.Period.Interval.String()
	}
	return e
}

func within(dir, path string) string {
	return strings.TrimPrefix(filepath.Clean(path), dir+"/")
}

func run(dir string, c *kase, p *plan, r *reader, how string) (o obs) {
	o = obs{Calls: []entry{}, Lines: []string{}, How: how, Sound: true}
	defer func() {
		if x := recover(); x != nil {
			o.Kind, o.Lines = "panic", []string{fmt.Sprint(x)}
		}
	}()
	var again []func() entry
	record := func(show func() entry) error {
		again = append(again, show)
		o.Calls = append(o.Calls, show())
		if p.Refuse > 0 && len(o.Calls) == p.Refuse {
			return errHandler
		}
		return nil
	}
	var th parser.TransactionHandler
	var ph parser.PeriodicTransactionHandler
	for _, g := range p.Given {
		if g == "transaction" {
			th = func(t *journal.Transaction, path string) error {
				for _, x := range t.Postings {
					o.Sound = o.Sound && x.Transaction == t && x.Account == nil
				}
				return record(func() entry { return ofTransaction(t, within(dir, path)) })
			}
		}
		if g == "allocation" {
			ph = func(t *journal.PeriodicTransaction, path string) error {
				return record(func() entry { return ofAllocation(t, within(dir, path)) })
			}
		}
	}
	ps := parser.NewParser(th, ph)
	err := ps.Parse(r, dir+"/"+c.Root)
	for i, show := range again {
		a, _ := json.Marshal(show())
		b, _ := json.Marshal(o.Calls[i])
		o.Sound = o.Sound && string(a) == string(b)
	}
	switch {
	case err == nil:
		o.Kind = "none"
	case errors.Is(err, errHandler):
		o.Kind = "handler"
	case errors.Is(err, errReader):
		o.Kind = "reader"
	default:
		o.Kind = "journal"
	}
	if err != nil {
		for _, l := range strings.Split(strings.TrimRight(err.Error(), "\n"), "\n") {
			o.Lines = append(o.Lines, strings.ReplaceAll(l, dir+"/", ""))
		}
	}
	return o
}

func (o obs) key() string {
	o.How = ""
	b, _ := json.Marshal(o)
	return string(b)
}

func same(a, b []entry) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

func meets(allowed []outcome, o obs) string {
	if !o.Sound {
		return "what was delivered changed later or is wrongly linked"
	}
	why := ""
	for _, a := range allowed {
		w := ""
		switch {
		case o.Kind != a.Kind:
			w = fmt.Sprintf("error of kind %s, expected %s", o.Kind, a.Kind)
		case !same(o.Calls, a.Calls):
			x, _ := json.Marshal(a.Calls)
			y, _ := json.Marshal(o.Calls)
			w = fmt.Sprintf("handlers were given %s, expected %s", y, x)
		case a.Kind == "journal" || a.Kind == "handler":
			if len(o.Lines) <= len(a.Chain) {
				w = "not an error message"
			}
			for i := range a.Chain {
				if w == "" && o.Lines[i] != a.Chain[i] {
					w = fmt.Sprintf("line %d of the error: expected %q, got %q", i+1, a.Chain[i], o.Lines[i])
				}
			}
		}
		if w == "" {
			return ""
		}
		why = w
	}
	return why
}

func do(base string, worker, n int, c *kase) error {
	dir := filepath.Join(base, fmt.Sprintf("p%d-%d", worker, n))
	defer os.RemoveAll(dir)
	eol := c.EOL
	if eol == "" {
		eol = "\n"
	}
	text := func(lines []string) []byte {
		b := []byte{}
		for i, l := range lines {
			b = append(b, l...)
			if i+1 < len(lines) || !c.NoEnd {
				b = append(b, eol...)
			}
		}
		return b
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for name, lines := range c.Files {
		path := filepath.Join(dir, name)
		if !strings.HasPrefix(path, dir+"/") {
			return fmt.Errorf("file outside: %s", name)
		}
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(path, text(lines), 0o644); err != nil {
			return err
		}
	}
	rootLines := c.Files[filepath.Clean(c.Root)]
	all := text(rootLines)
	rnd := rand.New(rand.NewSource(int64(len(all)*31 + len(c.Plans))))
	random := func() []int {
		q := []int{}
		for i := 0; i < 17; i++ {
			q = append(q, 1+rnd.Intn(1+rnd.Intn(120)))
		}
		return append(q, 0, 1)
	}
	for i := range c.Plans {
		p := &c.Plans[i]
		seen := map[string]bool{}
		p.Obs = []obs{}
		add := func(o obs) {
			if !seen[o.key()] && len(p.Obs) < 4 {
				seen[o.key()] = true
				p.Obs = append(p.Obs, o)
			}
		}
		ways := [][]int{{1 << 20}, {1}, random(), {0, 1, 0, 2}}
		if p.Cut < 0 {
			for _, w := range ways {
				for _, with := range []bool{false, true} {
					add(run(dir, c, p, &reader{data: all, sizes: w, with: with, end: io.EOF},
						fmt.Sprintf("chunks %v, end with the last bytes: %v", w, with)))
				}
			}
		} else {
			if p.Cut > len(rootLines) || (c.NoEnd && p.Cut == len(rootLines) && p.Cut > 0) {
				return fmt.Errorf("no such cut: %d", p.Cut)
			}
			from := 0
			for k := 0; k < p.Cut; k++ {
				from += len(rootLines[k]) + len(eol)
			}
			most := 0
			if p.Cut < len(rootLines) {
				most = len(rootLines[p.Cut])
				if !c.NoEnd || p.Cut+1 < len(rootLines) {
					most += len(eol) - 1
				}
			}
			at := map[int]bool{0: true, most: true}
			for k := 0; k <= most && most < 24; k++ {
				at[k] = true
			}
			for k := 0; k < 6; k++ {
				at[rnd.Intn(most+1)] = true
			}
			ks := []int{}
			for k := range at {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				w := ways[(k+i)%len(ways)]
				for _, with := range []bool{false, true} {
					for _, passes := range []bool{false, true} {
						r := &reader{data: all[:from+k], sizes: w, with: with, end: errReader}
						if passes {
							r.after = all[from+k:]
						}
						add(run(dir, c, p, r, fmt.Sprintf("chunks %v, failing after %d bytes, with the last bytes: %v, once only: %v",
							w, from+k, with, passes)))
					}
				}
			}
		}
		for _, o := range p.Obs {
			if p.Allowed != nil && p.Bad == "" {
				p.Bad = meets(p.Allowed, o)
			}
		}
	}
	return nil
}

func parse(line []byte) (c kase, ok bool, err error) {
	if len(line) > 0 && line[0] == '"' {
		var text string
		if json.Unmarshal(line, &text) != nil || !strings.HasPrefix(text, "CASE ") {
			return c, false, nil
		}
		return c, true, json.Unmarshal([]byte(text[5:]), &c)
	}
	if len(line) > 0 && line[0] == '{' {
		return c, true, json.Unmarshal(line, &c)
	}
	return c, false, nil
}

func main() {
	scratch := flag.String("scratch", "", "directory for files")
	failing := flag.Bool("failing", false, "pass on failing cases only")
	flag.Parse()
	if *scratch == "" {
		fmt.Fprintln(os.Stderr, "parse: -scratch is needed")
		os.Exit(2)
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	out := bufio.NewWriter(os.Stdout)
	var lock sync.Mutex
	n, plans, runs := 0, 0, 0
	type job struct {
		n    int
		line []byte
	}
	lines := make(chan job, 1024)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func(worker int) {
			defer wg.Done()
			for j := range lines {
				c, ok, err := parse(j.line)
				if err == nil && ok {
					err = do(*scratch, worker, j.n, &c)
				}
				if err != nil {
					fmt.Fprintln(os.Stderr, "parse:", err, string(j.line))
					os.Exit(2)
				}
				lock.Lock()
				if !ok {
					fmt.Fprintf(out, "%s\n", j.line)
				} else {
					n++
					plans += len(c.Plans)
					bad := false
					for _, p := range c.Plans {
						bad = bad || p.Bad != ""
						runs += len(p.Obs)
					}
					if bad || !*failing {
						b, _ := json.Marshal(c)
						fmt.Fprintf(out, "CASE %s\n", b)
					}
				}
				lock.Unlock()
			}
		}(i)
	}
	k := 0
	for sc.Scan() {
		k++
		lines <- job{k, append([]byte{}, sc.Bytes()...)}
	}
	close(lines)
	wg.Wait()
	if err := sc.Err(); err != nil {
		fmt.Fprintln(os.Stderr, "parse:", err)
		os.Exit(2)
	}
	fmt.Fprintf(out, "DONE %d %d\n", n, plans)
	out.Flush()
}
