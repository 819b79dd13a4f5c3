// ledger replays histories of operations on package journal's transactions,
// journals and budgets emitted by the specification (Ledger.tla) and compares
// what can be observed.  It is built inside /repo's module by a build overlay.
//
// In: one JSON object per line: {"ops": [...], "res": [...], "seen": [...]},
// where seen holds the expected observations after the last len(seen)
// operations.  Out: one line per failing history.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/rikchilvers/gledger/journal"
)

type op struct {
	Op      string `json:"op"`
	T       int    `json:"t"`
	P       int    `json:"p"`
	Text    string `json:"text"`
	Account string `json:"account"`
	Has     bool   `json:"has"`
	C       string `json:"c"`
	Q       string `json:"q"`
	Day     string `json:"day"`
	How     string `json:"how"`
}

type transaction struct {
	Day   string   `json:"day"`
	State string   `json:"state"`
	Payee string   `json:"payee"`
	Note  string   `json:"note"`
	Notes []string `json:"notes"`
	Ps    []int    `json:"ps"`
	Text  []string `json:"text"` // "*": not looked at
}

type posting struct {
	Account  string   `json:"account"`
	Txn      int      `json:"txn"`
	Comments []string `json:"comments"`
	Amount   string   `json:"amount"`
}

type row struct {
	Names  []string `json:"names"`
	Amount string   `json:"amount"`
	Posts  []int    `json:"posts"`
}

type month struct {
	Month     string `json:"month"`
	Envelopes []row  `json:"envelopes"`
	Expenses  []row  `json:"expenses"`
	Income    row    `json:"income"`
}

type seen struct {
	Txns    []transaction `json:"txns"`
	Posts   []posting     `json:"posts"`
	Journal []row         `json:"journal"`
	Months  []month       `json:"months"`
	Reg     []string      `json:"reg"`
}

type history struct {
	Ops  []op   `json:"ops"`
	Res  []int  `json:"res"`
	Seen []seen `json:"seen"`
}

type world struct {
	j     journal.Journal
	b     journal.Budget
	reg   *journal.Amount
	txns  []*journal.Transaction
	posts []*journal.Posting
	ids   map[*journal.Posting]int
	tids  map[*journal.Transaction]int
	wrong string
}

var states = map[string]journal.TransactionState{" ": journal.NoState, "!": journal.UnclearedState, "*": journal.ClearedState}

func amount(o op) *journal.Amount {
	n, err := strconv.ParseInt(o.Q, 10, 64)
	if err != nil {
		panic(err)
	}
	return journal.NewAmount(o.C, n)
}

func (w *world) do(o op) error {
	switch o.Op {
	case "new":
		t := journal.NewTransaction()
		d, err := time.Parse("2006-01-02", o.Day)
		if err != nil {
			panic(err)
		}
		t.Date, t.State, t.Payee = d, states[o.How], o.Text
		w.txns = append(w.txns, &t)
		w.tids[&t] = len(w.txns)
	case "header":
		w.txns[o.T-1].HeaderNote = o.Text
	case "note":
		w.txns[o.T-1].AddNote(o.Text)
	case "comment":
		w.posts[o.P-1].AddComment(o.Text)
	case "posting":
		p := journal.NewPosting()
		p.Transaction = w.txns[o.T-1]
		p.AccountPath = o.Account
		if o.Has {
			p.Amount = amount(o)
		}
		w.posts = append(w.posts, p)
		w.ids[p] = len(w.posts)
		return w.txns[o.T-1].AddPosting(p)
	case "close":
		return w.txns[o.T-1].Close()
	case "enter":
		p := w.posts[o.P-1]
		switch o.How {
		case "journal":
			return w.j.AddPosting(p)
		case "envelope":
			return w.b.AddPosting(p, journal.EnvelopePosting)
		case "expense":
			return w.b.AddPosting(p, journal.ExpensePosting)
		case "income":
			return w.b.AddPosting(p, journal.IncomePosting)
		}
		panic(o.How)
	case "allocation":
		pt := journal.NewPeriodicTransaction()
		pt.Transaction = *w.txns[o.T-1]
		pt.Period.StartDate = pt.Transaction.Date
		return w.j.AddPeriodicTransaction(&pt, "j.journal")
	case "add":
		a := amount(o)
		a.Commodity = "£"
		return w.reg.Add(*a)
	case "subtract":
		a := amount(o)
		a.Commodity = "£"
		return w.reg.Subtract(*a)
	default:
		panic(o.Op)
	}
	return nil
}

func (w *world) of(ps []*journal.Posting) []int {
	out := []int{}
	for _, p := range ps {
		n, ok := w.ids[p]
		if !ok {
			n = -1
		}
		out = append(out, n)
	}
	return out
}

// rows lists an account and those below it; linked tells whether the postings
// of an account have to know it.
func (w *world) rows(a *journal.Account, names []string, linked, txns bool) []row {
	out := []row{{Names: append([]string{}, names...), Amount: a.Amount.DisplayableQuantity(true), Posts: w.of(a.Postings)}}
	for i, p := range a.Postings {
		if linked && p.Account != a {
			w.wrong = fmt.Sprintf("posting %d does not know its account %v", w.ids[p], names)
		}
		if txns && (len(a.Transactions) != len(a.Postings) || a.Transactions[i] != p.Transaction) {
			w.wrong = fmt.Sprintf("account %v does not know the transactions of its postings", names)
		}
	}
	for name, c := range a.Children {
		if c.Name != name || c.Parent != a {
			w.wrong = fmt.Sprintf("account %q below %v is wrongly linked", name, names)
		}
		out = append(out, w.rows(c, append(append([]string{}, names...), name), linked, txns)...)
	}
	return out
}

func (w *world) observe() seen {
	w.wrong = ""
	s := seen{Txns: []transaction{}, Posts: []posting{}, Months: []month{}}
	for _, t := range w.txns {
		x := transaction{Day: t.Date.Format("2006-01-02"), State: journal.StateToString(t.State), Payee: t.Payee, Note: t.HeaderNote,
			Notes: append([]string{}, t.Notes...), Ps: w.of(t.Postings), Text: []string{"*"}}
		whole := true
		for _, p := range t.Postings {
			whole = whole && p.Amount != nil
		}
		if whole {
			x.Text = strings.Split(t.String(), "\n")
			if n := len(x.Text) - 1; x.Text[n] == "" {
				x.Text = x.Text[:n]
			} else {
				x.Text = append(x.Text, "<no line end>")
			}
		}
		s.Txns = append(s.Txns, x)
	}
	for _, p := range w.posts {
		x := posting{Account: p.AccountPath, Txn: w.tids[p.Transaction], Comments: append([]string{}, p.Comments...), Amount: "none"}
		if p.Amount != nil {
			x.Amount = p.Amount.DisplayableQuantity(true)
			if n := p.Amount.DisplayableQuantity(false); x.Amount != p.Amount.Commodity+n || p.Amount.String() != n {
				w.wrong = fmt.Sprintf("an amount is shown as %q, %q and %q", x.Amount, n, p.Amount.String())
			}
		}
		s.Posts = append(s.Posts, x)
	}
	s.Journal = w.rows(w.j.Root, nil, true, true)
	for k, m := range w.b.Months {
		if k.Hour() != 0 || k.Minute() != 0 || k.Second() != 0 || k.Nanosecond() != 0 {
			w.wrong = "a month starts at " + k.String()
		}
		s.Months = append(s.Months, month{Month: k.Format("2006-01-02"), Envelopes: w.rows(m.EnvelopeRoot, nil, true, false),
			Expenses: w.rows(m.ExpenseRoot, nil, true, false), Income: w.rows(m.Income, nil, false, false)[0]})
		if len(m.Income.Children) > 0 {
			w.wrong = "there are accounts below income"
		}
	}
	s.Reg = []string{w.reg.String(), w.reg.DisplayableQuantity(true)}
	return s
}

func order(rows []row) {
	for i := range rows {
		if rows[i].Names == nil {
			rows[i].Names = []string{}
		}
		if rows[i].Posts == nil {
			rows[i].Posts = []int{}
		}
	}
	sort.Slice(rows, func(i, j int) bool {
		return strings.Join(rows[i].Names, "\x00") < strings.Join(rows[j].Names, "\x00") ||
			len(rows[i].Names) < len(rows[j].Names) && strings.Join(rows[i].Names, "\x00") == strings.Join(rows[j].Names, "\x00")
	})
}

func arrange(s *seen) {
	order(s.Journal)
	for i := range s.Months {
		order(s.Months[i].Envelopes)
		order(s.Months[i].Expenses)
	}
	sort.Slice(s.Months, func(i, j int) bool { return s.Months[i].Month < s.Months[j].Month })
}

func difference(want, got seen) string {
	arrange(&want)
	arrange(&got)
	one := func(what string, a, b interface{}) string {
		if reflect.DeepEqual(a, b) {
			return ""
		}
		x, _ := json.Marshal(a)
		y, _ := json.Marshal(b)
		return fmt.Sprintf("%s: expected %s, got %s", what, x, y)
	}
	for _, d := range []string{one("transactions", want.Txns, got.Txns), one("postings", want.Posts, got.Posts),
		one("journal", want.Journal, got.Journal), one("budget", want.Months, got.Months), one("sum", want.Reg, got.Reg)} {
		if d != "" {
			return d
		}
	}
	return ""
}

func replay(h history) (bad string) {
	step := 0
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("operation %d: panic: %v", step+1, r)
		}
	}()
	w := &world{j: journal.NewJournal(), b: journal.NewBudget(), reg: journal.NewAmount("£", 0),
		ids: map[*journal.Posting]int{}, tids: map[*journal.Transaction]int{}}
	for i, o := range h.Ops {
		step = i
		res := 1
		if err := w.do(o); err != nil {
			res = 0
		}
		if res != h.Res[i] {
			return fmt.Sprintf("operation %d (%s): result %d, expected %d", i+1, o.Op, res, h.Res[i])
		}
		if k := i - (len(h.Ops) - len(h.Seen)); k >= 0 {
			d := difference(h.Seen[k], w.observe())
			if d == "" {
				d = w.wrong
			}
			if d != "" {
				return fmt.Sprintf("after operation %d (%s): %s", i+1, o.Op, d)
			}
		}
	}
	return ""
}

// Lines that TLC printed are "CASE {...}" as a quoted string; its other lines
// are passed on.
func parse(line []byte) (h history, ok bool, err error) {
	if len(line) > 0 && line[0] == '"' {
		var text string
		if json.Unmarshal(line, &text) != nil || !strings.HasPrefix(text, "CASE ") {
			return h, false, nil
		}
		return h, true, json.Unmarshal([]byte(text[5:]), &h)
	}
	if len(line) > 0 && line[0] == '{' {
		return h, true, json.Unmarshal(line, &h)
	}
	return h, false, nil
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	report := os.Stdout
	// package journal says on standard output what it could not add; no
	// history has anything of the kind
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	var lock sync.Mutex
	n, failed := 0, 0
	lines := make(chan []byte, 1024)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for line := range lines {
				h, ok, err := parse(line)
				if err != nil {
					fmt.Fprintln(os.Stderr, "ledger:", err, string(line))
					os.Exit(2)
				}
				bad := ""
				if ok {
					bad = replay(h)
				}
				lock.Lock()
				if ok {
					n++
				} else {
					fmt.Fprintf(report, "%s\n", line)
				}
				if bad != "" {
					failed++
					if failed <= 20 {
						b, _ := json.Marshal(map[string]interface{}{"bad": bad, "history": h})
						fmt.Fprintf(report, "FAIL %s\n", b)
					}
				}
				lock.Unlock()
			}
		}()
	}
	for sc.Scan() {
		lines <- append([]byte{}, sc.Bytes()...)
	}
	close(lines)
	wg.Wait()
	if err := sc.Err(); err != nil {
		fmt.Fprintln(os.Stderr, "ledger:", err)
		os.Exit(2)
	}
	fmt.Fprintf(report, "DONE %d %d\n", n, failed)
}
