// tree replays histories of account operations emitted by the specification
// (AccountTree.tla) on package journal and compares what can be observed.
// It is built inside /repo's module by a build overlay.
//
// In: one JSON object per line: {"ops": [...], "res": [...], "seen": [...]},
// where seen holds the expected observations after the last len(seen)
// operations.  Out: one line per failing history.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/rikchilvers/gledger/journal"
	"github.com/rikchilvers/gledger/reporting"
)

type op struct {
	Op    string   `json:"op"`
	On    int      `json:"on"`
	Names []string `json:"names"`
	Q     int64    `json:"q"`
	Depth int      `json:"depth"`
	Cond  string   `json:"cond"`
}

type account struct {
	Name    string   `json:"name"`
	Parent  int      `json:"parent"`
	Kids    []int    `json:"kids"`
	Path    string   `json:"path"`
	Comps   []string `json:"comps"`
	Created string   `json:"created"`
	Top     int      `json:"top"`
	Amount  string   `json:"amount"`
	Posts   int      `json:"posts"`
}

type seen struct {
	Accounts []account `json:"accounts"`
	Leaves   []int     `json:"leaves"`
	Found    []int     `json:"found"`
	// drawings, where they are looked at
	Tree      *[]line `json:"tree,omitempty"`
	Collapsed *[]line `json:"collapsed,omitempty"`
	Flat      *[]line `json:"flat,omitempty"`
}

// line is a line of a drawing and the account it is for; 0 for any drawing.
type line struct {
	At   int    `json:"at"`
	Text string `json:"text"`
}

type history struct {
	Ops  []op   `json:"ops"`
	Res  []int  `json:"res"`
	Seen []seen `json:"seen"`
}

type world struct {
	j     journal.Journal
	known []*journal.Account
	ids   map[*journal.Account]int
}

func (w *world) id(a *journal.Account) int {
	if a == nil {
		return 0
	}
	if n, ok := w.ids[a]; ok {
		return n
	}
	return -1
}

// learn gives numbers to the accounts from the root down to a.
func (w *world) learn(a *journal.Account) {
	chain := []*journal.Account{}
	for c := a; c != nil && len(chain) < 1000; c = c.Parent {
		chain = append(chain, c)
	}
	for i := len(chain) - 1; i >= 0; i-- {
		if _, ok := w.ids[chain[i]]; !ok {
			w.known = append(w.known, chain[i])
			w.ids[chain[i]] = len(w.known)
		}
	}
}

func condition(c string) func(journal.Account) bool {
	switch c {
	case "nonzero":
		return func(a journal.Account) bool { return a.Amount.Quantity != 0 }
	case "posted":
		return func(a journal.Account) bool { return len(a.Postings) > 0 }
	case "leaf":
		return func(a journal.Account) bool { return len(a.Children) == 0 }
	case "any":
		return func(journal.Account) bool { return true }
	case "none":
		return func(journal.Account) bool { return false }
	}
	return func(a journal.Account) bool { return a.Name == c }
}

func (w *world) post(o op, target *journal.Account) (*journal.Account, error) {
	t := journal.NewTransaction()
	p := journal.NewPosting()
	p.Transaction = &t
	p.Amount = journal.NewAmount("£", o.Q)
	p.Account = target
	p.AccountPath = strings.Join(o.Names, ":")
	err := w.j.AddPosting(p)
	return p.Account, err
}

func (w *world) do(o op) (res int, err error) {
	on := w.known[o.On-1]
	switch o.Op {
	case "get":
		a := on.FindOrCreateAccount(o.Names)
		w.learn(a)
		return w.id(a), nil
	case "post", "postto":
		var target *journal.Account
		if o.Op == "postto" {
			target = on
		}
		a, err := w.post(o, target)
		if err != nil {
			return 0, err
		}
		w.learn(a)
		return w.id(a), nil
	case "prune":
		on.PruneChildren(o.Depth, 0)
	case "remove":
		if on.RemoveChildren(condition(o.Cond)) {
			return 1, nil
		}
	case "empty":
		on.RemoveEmptyChildren()
	case "unlink":
		on.Unlink()
	}
	return 0, nil
}

func (w *world) sorted(as []*journal.Account) []int {
	out := []int{}
	for _, a := range as {
		out = append(out, w.id(a))
	}
	sort.Ints(out)
	return out
}

func (w *world) observe(o op) seen {
	s := seen{}
	for _, a := range w.known {
		x := account{Name: a.Name, Parent: w.id(a.Parent), Kids: []int{}, Path: a.Path,
			Comps: append([]string{}, a.PathComponents...), Created: a.CreatePath(), Top: w.id(a.Head()),
			Amount: a.Amount.DisplayableQuantity(false), Posts: len(a.Postings)}
		names := a.SortedChildNames()
		if len(names) != len(a.Children) {
			x.Kids = append(x.Kids, -2)
		}
		for _, n := range names {
			c, ok := a.Children[n]
			if !ok || c.Name != n || c.Parent != a {
				x.Kids = append(x.Kids, -3)
			}
			x.Kids = append(x.Kids, w.id(c))
		}
		s.Accounts = append(s.Accounts, x)
	}
	on := w.known[o.On-1]
	s.Leaves = w.sorted(on.Leaves())
	s.Found = w.sorted(on.FindAccounts(condition(o.Cond)))
	return s
}

// difference says where got is not as wanted; "*" stands for anything.
func difference(want, got seen) string {
	if len(want.Accounts) != len(got.Accounts) {
		return fmt.Sprintf("%d accounts known, expected %d", len(got.Accounts), len(want.Accounts))
	}
	for i, a := range want.Accounts {
		b := got.Accounts[i]
		if a.Path == "*" {
			b.Path = "*"
		}
		if len(a.Comps) == 1 && a.Comps[0] == "*" {
			b.Comps = a.Comps
		}
		if a.Created == "*" {
			b.Created = "*"
		}
		if a.Top == 0 {
			b.Top = 0
		}
		if !reflect.DeepEqual(a, b) {
			return fmt.Sprintf("account %d: expected %+v, got %+v", i+1, a, b)
		}
	}
	if !reflect.DeepEqual(want.Leaves, got.Leaves) {
		return fmt.Sprintf("leaves: expected %v, got %v", want.Leaves, got.Leaves)
	}
	if !reflect.DeepEqual(want.Found, got.Found) {
		return fmt.Sprintf("found: expected %v, got %v", want.Found, got.Found)
	}
	return ""
}

// label tells accounts apart as well as can be from their copies.
func label(a journal.Account) string {
	return fmt.Sprintf("%8s %d %q | ", a.Amount.DisplayableQuantity(true), len(a.Postings), a.Name)
}

// draw compares the drawings of the accounts below one with those wanted.
func (w *world) draw(on *journal.Account, want seen) string {
	drawings := []struct {
		name  string
		lines []line
		draw  func(func(journal.Account) string) string
	}{
		{"tree", *want.Tree, func(p func(journal.Account) string) string { return reporting.Tree(*on, p, false) }},
		{"collapsed tree", *want.Collapsed, func(p func(journal.Account) string) string { return reporting.Tree(*on, p, true) }},
		{"flattened tree", *want.Flat, func(p func(journal.Account) string) string { return reporting.FlattenedTree(*on, p) }},
	}
	for _, d := range drawings {
		for _, labels := range []bool{true, false, true} {
			var prepender func(journal.Account) string
			if labels {
				prepender = label
			}
			got := d.draw(prepender)
			texts := []string{}
			any := false
			for _, l := range d.lines {
				if l.At == 0 {
					any = true
					break
				}
				t := l.Text
				if labels {
					t = label(*w.known[l.At-1]) + t
				}
				texts = append(texts, t)
			}
			if text := strings.Join(texts, "\n"); !any && got != text {
				return fmt.Sprintf("%s of account %d: expected %q, got %q", d.name, w.id(on), text, got)
			}
		}
	}
	return ""
}

func replay(h history) (bad string) {
	step := 0
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("operation %d: panic: %v", step+1, r)
		}
	}()
	w := &world{j: journal.NewJournal(), ids: map[*journal.Account]int{}}
	w.learn(w.j.Root)
	for i, o := range h.Ops {
		step = i
		if o.On > len(w.known) {
			return fmt.Sprintf("operation %d: account %d has not appeared", i+1, o.On)
		}
		res, err := w.do(o)
		if err != nil {
			return fmt.Sprintf("operation %d: error %v", i+1, err)
		}
		if res != h.Res[i] {
			return fmt.Sprintf("operation %d: result %d, expected %d", i+1, res, h.Res[i])
		}
		if k := i - (len(h.Ops) - len(h.Seen)); k >= 0 {
			if d := difference(h.Seen[k], w.observe(o)); d != "" {
				return fmt.Sprintf("after operation %d: %s", i+1, d)
			}
			if h.Seen[k].Tree != nil {
				d := w.draw(w.known[o.On-1], h.Seen[k])
				if d == "" {
					d = difference(h.Seen[k], w.observe(o)) // drawing changes nothing
				}
				if d != "" {
					return fmt.Sprintf("after operation %d: %s", i+1, d)
				}
			}
		}
	}
	return ""
}

// Lines that TLC printed are "TREE {...}" as a quoted string; its other lines
// are passed on.
func parse(line []byte) (h history, ok bool, err error) {
	if len(line) > 0 && line[0] == '"' {
		var text string
		if json.Unmarshal(line, &text) != nil || !strings.HasPrefix(text, "TREE ") {
			return h, false, nil
		}
		return h, true, json.Unmarshal([]byte(text[5:]), &h)
	}
	if len(line) > 0 && line[0] == '{' {
		return h, true, json.Unmarshal(line, &h)
	}
	return h, false, nil
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var lock sync.Mutex
	n, failed := 0, 0
	lines := make(chan []byte, 1024)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for line := range lines {
				h, ok, err := parse(line)
				if err != nil {
					fmt.Fprintln(os.Stderr, "tree:", err, string(line))
					os.Exit(2)
				}
				bad := ""
				if ok {
					bad = replay(h)
				}
				lock.Lock()
				switch {
				case !ok:
					fmt.Printf("%s\n", line)
				default:
					n++
				}
				if bad != "" {
					failed++
					if failed <= 20 {
						b, _ := json.Marshal(map[string]interface{}{"bad": bad, "history": h})
						fmt.Printf("FAIL %s\n", b)
					}
				}
				lock.Unlock()
			}
		}()
	}
	for sc.Scan() {
		lines <- append([]byte{}, sc.Bytes()...)
	}
	close(lines)
	wg.Wait()
	if err := sc.Err(); err != nil {
		fmt.Fprintln(os.Stderr, "tree:", err)
		os.Exit(2)
	}
	fmt.Printf("DONE %d %d\n", n, failed)
}
