// filter replays histories of operations on package reporting's filters
// emitted by the specification (Filters.tla) and compares what can be
// observed.  It is built inside /repo's module by a build overlay.
//
// In: one JSON object per line: {"ops": [...], "res": [...], "seen": [...]},
// where seen holds what every filter says of every transaction after the last
// len(seen) operations.  Out: one line per failing history.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/rikchilvers/gledger/journal"
	"github.com/rikchilvers/gledger/reporting"
)

type op struct {
	Op   string   `json:"op"`
	T    int      `json:"t"`
	P    int      `json:"p"`
	Text string   `json:"text"`
	Args []string `json:"args"`
}

type how struct {
	Payee bool  `json:"payee"`
	Note  bool  `json:"note"`
	Ps    []int `json:"ps"`
}

type history struct {
	Ops  []op      `json:"ops"`
	Res  []string  `json:"res"`
	Seen [][][]how `json:"seen"`
}

type world struct {
	txns    []*journal.Transaction
	filters []reporting.Filter
}

func truth(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func (w *world) do(o op) string {
	var t *journal.Transaction
	if o.T > 0 {
		t = w.txns[o.T-1]
	}
	switch o.Op {
	case "txn":
		t := journal.NewTransaction()
		t.Payee = o.Text
		w.txns = append(w.txns, &t)
	case "payee":
		t.Payee = o.Text
	case "header":
		t.HeaderNote = o.Text
	case "note":
		t.AddNote(o.Text)
	case "posting":
		p := journal.NewPosting()
		p.Transaction = t
		p.AccountPath = o.Text
		p.Amount = journal.NewAmount("£", 100)
		if err := t.AddPosting(p); err != nil {
			return err.Error()
		}
	case "comment":
		t.Postings[o.P-1].AddComment(o.Text)
	case "filter":
		f, err := reporting.NewFilter(o.Text)
		if err != nil {
			return "error"
		}
		w.filters = append(w.filters, f)
	case "any":
		args := append([]string{}, o.Args...)
		m, err := reporting.MatchesRegex(t, args)
		if !reflect.DeepEqual(args, append([]string{}, o.Args...)) {
			return "arguments changed"
		}
		if err != nil {
			return "error"
		}
		return truth(m)
	case "string":
		s := ""
		for _, f := range w.filters {
			if f.MatchesString(o.Text) {
				s += "1"
			} else {
				s += "0"
			}
		}
		return s
	case "upper":
		return truth(reporting.ContainsUppercase(o.Text))
	default:
		panic(o.Op)
	}
	return "ok"
}

// shown is all of a transaction a filter could change
func shown(t *journal.Transaction) string {
	s := fmt.Sprintf("%v %v %q %q %q", t.Date, t.State, t.Payee, t.HeaderNote, t.Notes)
	for _, p := range t.Postings {
		s += fmt.Sprintf(" %p %q %q %v %v", p, p.AccountPath, p.Comments, *p.Amount, p.Transaction == t)
	}
	return s
}

func (w *world) observe() (out [][]how, wrong string) {
	for _, f := range w.filters {
		row := []how{}
		for _, t := range w.txns {
			before := shown(t)
			var h how
			var ps []*journal.Posting
			h.Payee, h.Note, ps = f.MatchesTransactionHow(*t)
			h.Ps = []int{}
			for _, p := range ps {
				k := 0
				for i := range t.Postings {
					if t.Postings[i] == p {
						k = i + 1
					}
				}
				h.Ps = append(h.Ps, k)
			}
			sort.Ints(h.Ps)
			if is := f.MatchesTransaction(*t); is != (h.Payee || h.Note || len(h.Ps) > 0) {
				wrong = fmt.Sprintf("a filter matches (%v), but how is %v", is, h)
			}
			if shown(t) != before {
				wrong = "a filter changed a transaction"
			}
			row = append(row, h)
		}
		out = append(out, row)
	}
	return out, wrong
}

func replay(h history) (bad string) {
	step := 0
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("operation %d: panic: %v", step+1, r)
		}
	}()
	w := &world{}
	for i, o := range h.Ops {
		step = i
		if res := w.do(o); res != h.Res[i] {
			return fmt.Sprintf("operation %d (%s): result %q, expected %q", i+1, o.Op, res, h.Res[i])
		}
		if k := i - (len(h.Ops) - len(h.Seen)); k >= 0 {
			got, wrong := w.observe()
			want := h.Seen[k]
			if wrong == "" && len(want)+len(got) > 0 && !reflect.DeepEqual(want, got) {
				a, _ := json.Marshal(want)
				b, _ := json.Marshal(got)
				wrong = fmt.Sprintf("expected %s, got %s", a, b)
			}
			if wrong != "" {
				return fmt.Sprintf("after operation %d (%s): %s", i+1, o.Op, wrong)
			}
		}
	}
	return ""
}

// Lines that TLC printed are "CASE {...}" as a quoted string; its other lines
// are passed on.
func parse(line []byte) (h history, ok bool, err error) {
	if len(line) > 0 && line[0] == '"' {
		var text string
		if json.Unmarshal(line, &text) != nil || !strings.HasPrefix(text, "CASE ") {
			return h, false, nil
		}
		return h, true, json.Unmarshal([]byte(text[5:]), &h)
	}
	if len(line) > 0 && line[0] == '{' {
		return h, true, json.Unmarshal(line, &h)
	}
	return h, false, nil
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	report := os.Stdout
	var lock sync.Mutex
	n, failed := 0, 0
	lines := make(chan []byte, 1024)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for line := range lines {
				h, ok, err := parse(line)
				if err != nil {
					fmt.Fprintln(os.Stderr, "filter:", err, string(line))
					os.Exit(2)
				}
				bad := ""
				if ok {
					bad = replay(h)
				}
				lock.Lock()
				if ok {
					n++
				} else {
					fmt.Fprintf(report, "%s\n", line)
				}
				if bad != "" {
					failed++
					if failed <= 20 {
						b, _ := json.Marshal(map[string]interface{}{"bad": bad, "history": h})
						fmt.Fprintf(report, "FAIL %s\n", b)
					}
				}
				lock.Unlock()
			}
		}()
	}
	for sc.Scan() {
		lines <- append([]byte{}, sc.Bytes()...)
	}
	close(lines)
	wg.Wait()
	if err := sc.Err(); err != nil {
		fmt.Fprintln(os.Stderr, "filter:", err)
		os.Exit(2)
	}
	fmt.Fprintf(report, "DONE %d %d\n", n, failed)
}
