From 81cfe2f565da4941966bd784495a4e761c3e1ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 01/43] fix: report a missing amount instead of panicking
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A posting with a commodity but no number ('A  £') indexed an empty slice.
---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3e9b6cc..b4ed050 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -142,6 +143,10 @@ func parseDate(content []rune) (time.Time, error) {
 }
 
 func parseAmount(content []rune) (int64, error) {
+	if len(content) == 0 {
+		return 0, errors.New("amount is missing")
+	}
+
 	// Handle signs
 	firstRune := content[0]
 	var multiplier int64
-- 
2.43.0


From c0387fe9a1ac523b7947abc9d96978f791159d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 02/43] fix: read amounts exactly

'5.5' was read as 5.05, '1.005' as 1.05, '--5' as 5, '1.-5' as 0.95, and amounts
too large for an int64 of hundredths wrapped around. Scale one decimal digit,
and reject what cannot be represented.
---
 parser/parser.go | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b4ed050..719bfb9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -170,31 +170,29 @@ func parseAmount(content []rune) (int64, error) {
 	}
 
 	// Find whole and decimal
-	var whole int64
-	var decimal int64
-	var err error
-	if decimalPosition == -1 {
-		// TODO: consider https://stackoverflow.com/a/29255836
-		whole, err = strconv.ParseInt(string(content), 10, 64)
-		decimal = 0
+	whole := string(content)
+	decimal := ""
+	if decimalPosition != -1 {
+		whole = string(content[:decimalPosition])
+		decimal = string(content[decimalPosition+1:])
+	}
 
-		if err != nil {
-			return 0, err
-		}
-	} else {
-		whole, err = strconv.ParseInt(string(content[:decimalPosition]), 10, 64)
-		if err != nil {
-			return 0, err
-		}
-		decimal, err = strconv.ParseInt(string(content[decimalPosition+1:]), 10, 64)
-		if err != nil {
-			return 0, err
-		}
+	// Quantities are held in hundredths, so one or two decimal digits are exact
+	if len(whole) == 0 || (decimalPosition != -1 && len(decimal) != 1 && len(decimal) != 2) {
+		return 0, fmt.Errorf("amount is malformed: %s", string(content))
+	}
+	for len(decimal) < 2 {
+		decimal += "0"
 	}
 
-	quantity := multiplier * (whole*100 + decimal)
+	// TODO: consider https://stackoverflow.com/a/29255836
+	// ParseUint accepts digits only and 63 bits keeps the quantity within an int64
+	hundredths, err := strconv.ParseUint(whole+decimal, 10, 63)
+	if err != nil {
+		return 0, err
+	}
 
-	return quantity, nil
+	return multiplier * int64(hundredths), nil
 }
 
 func parsePeriod(content []rune) (journal.Period, error) {
-- 
2.43.0


From d663f606ced8e3fd4ec8300eded4b52825b00110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 03/43] fix: display large amounts exactly

Amounts were formatted through a float64, which loses hundredths from about
2^45 units on (90071992547409.93 was shown as 90071992547409.92).
---
 journal/amount.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/journal/amount.go b/journal/amount.go
index c876e15..5eafc9f 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -24,8 +24,14 @@ func (a Amount) String() string {
 
 // DisplayableQuantity formats the Amount's commodity and quantity
 func (a Amount) DisplayableQuantity(withCommodity bool) string {
-	q := float64(a.Quantity) / 100
-	amount := fmt.Sprintf("%.2f", q)
+	// Format the hundredths as integers because a float64 cannot hold all of them
+	sign := ""
+	q := uint64(a.Quantity)
+	if a.Quantity < 0 {
+		sign = "-"
+		q = -q
+	}
+	amount := fmt.Sprintf("%s%d.%02d", sign, q/100, q%100)
 	if withCommodity {
 		return fmt.Sprintf("%s%s", a.Commodity, amount)
 	}
-- 
2.43.0


From 41b5a22a7ad3e74dd0ee57b8ad669a33a86e7b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 04/43] fix: give an omitted amount a value when the other
 amounts sum to zero

The posting was left without an amount and every report panicked on it.
---
 journal/transaction.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/journal/transaction.go b/journal/transaction.go
index 6fd9857..ca3090e 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -108,13 +108,11 @@ func (t *Transaction) Close() error {
 		sum += p.Amount.Quantity
 	}
 
-	if sum != 0 {
-		if t.postingWithElidedAmount == nil {
-			return errors.New("transaction does not balance")
-		}
-
+	if t.postingWithElidedAmount != nil {
 		// NB: setting the commodity like this will not work with multiple currencies
 		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
+	} else if sum != 0 {
+		return errors.New("transaction does not balance")
 	}
 
 	return nil
-- 
2.43.0


From 378a5c3f03610b2e1c65867053294e7679b1cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 05/43] fix: reject a second posting with an omitted amount

The error of AddPosting was ignored unless the posting was the last one, and the
posting was silently dropped.
---
 parser/transactionbuilder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 317b6f3..4d2f827 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -111,7 +111,9 @@ func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, ite
 
 		// Accounts start a posting, so check if we need to start a new one
 		if len(tb.currentPosting.AccountPath) != 0 {
-			t.AddPosting(tb.currentPosting)
+			if err := t.AddPosting(tb.currentPosting); err != nil {
+				return err
+			}
 			tb.currentPosting = journal.NewPosting()
 		}
 
-- 
2.43.0


From f10af771b6f7edeb05fba7473c7f4f346be98444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 06/43] fix: do not add an empty posting to a transaction
 without postings

A header with no postings got a posting with no account and no amount: accounts
listed an empty name and balance panicked.
---
 parser/transactionbuilder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 4d2f827..8acee06 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -207,8 +207,8 @@ func (tb *transactionBuilder) endTransaction(p Parser) error {
 }
 
 func (tb *transactionBuilder) endNormalTransaction(t *journal.Transaction, p Parser) error {
-	// Make sure we add the last open posting
-	if tb.currentPosting != nil {
+	// Make sure we add the last open posting (if there is one)
+	if tb.currentPosting != nil && len(tb.currentPosting.AccountPath) != 0 {
 		if err := t.AddPosting(tb.currentPosting); err != nil {
 			return err
 		}
-- 
2.43.0


From f9d7b6b272e9746059b7a21486b37b32613b2de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 07/43] fix: keep the first character of a transaction's header
 note

'payee ; note' (one space) gave the note 'ote', as did any note not introduced by
two spaces and an indicator: the indicator had already been consumed.
---
 parser/lexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d39606d..59e4aef 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -219,9 +219,13 @@ func (l *lexer) lexTransactionHeader() error {
 		return err
 	}
 
+	l.consumeSpace()
 	comment := l.takeToNextLine()
 	if len(comment) > 0 {
-		c := trimSpaceStart(comment[1:])
+		if isCommentIndicator(comment[0]) {
+			comment = comment[1:]
+		}
+		c := trimSpaceStart(comment)
 		if err = l.parser(transactionHeaderCommentItem, c); err != nil {
 			return err
 		}
@@ -381,6 +385,8 @@ func (l *lexer) takeToTabOrNextLineOrComment() []rune {
 		}
 
 		if isCommentIndicator(r) {
+			// Leave the indicator so that a caller can tell a comment follows
+			l.backup()
 			return trimSpace(runes)
 		}
 
-- 
2.43.0


From 54c8423b43647fca1e8d4346918efccf1c8c43c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 08/43] fix: trim notes that consist of spaces only

They were kept as they were, so every print of a printed journal made an empty
note longer.
---
 parser/lexer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 59e4aef..4662b24 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -470,13 +470,11 @@ func trimSpaceStart(runes []rune) []rune {
 		return runes
 	}
 
-	index := 0
 	for i, r := range runes {
 		if r != ' ' {
-			index = i
-			break
+			return runes[i:]
 		}
 	}
 
-	return runes[index:]
+	return runes[len(runes):]
 }
-- 
2.43.0


From fef89b9c9bd30a68ca200a5d65571cf8bfe443c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 09/43] fix: do not panic on a note under a budget entry

The note was added to the normal transaction, which is nil while a periodic one
is open.
---
 parser/transactionbuilder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 8acee06..f09095c 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -66,13 +66,13 @@ func (tb *transactionBuilder) build(t itemType, content []rune) error {
 func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, item itemType, content []rune) error {
 	switch item {
 	case transactionHeaderCommentItem:
-		tb.transaction.HeaderNote = string(content)
+		t.HeaderNote = string(content)
 	case commentItem:
 		// check if we've got a posting to attach the comment to
 		if len(tb.currentPosting.AccountPath) != 0 {
 			tb.currentPosting.AddComment(string(content))
 		} else {
-			tb.transaction.AddNote(string(content))
+			t.AddNote(string(content))
 		}
 	case dateItem:
 		date, err := parseDate(content)
-- 
2.43.0


From c8433b39294b00ce90583c36d1cbdb356038497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 10/43] fix: do not panic on indented lines outside a
 transaction

Ignore an indented comment like any other comment and reject a posting.
---
 parser/transactionbuilder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index f09095c..16ea40f 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -2,6 +2,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/rikchilvers/gledger/journal"
@@ -48,6 +49,14 @@ func (tb *transactionBuilder) beginTransaction(t transactionType) {
 }
 
 func (tb *transactionBuilder) build(t itemType, content []rune) error {
+	// Indented lines need an open transaction
+	if tb.currentPosting == nil {
+		if t == commentItem {
+			return nil
+		}
+		return errors.New("posting does not belong to a transaction")
+	}
+
 	switch tb.transactionType {
 	case normalTransaction:
 		if err := tb.buildNormalTransaction(tb.transaction, t, content); err != nil {
-- 
2.43.0


From 93e5bb59f4ecde6d48512fa69fc2d25f0520f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 11/43] fix: reject posting lines that do not start with an
 account
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'  401k  £5' was silently ignored, and the transaction's omitted amount was
computed without it.
---
 parser/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 4662b24..0931c89 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -279,8 +279,10 @@ func (l *lexer) lexPosting() error {
 		return nil
 	}
 
-	// If we didn't lex anything, we should reset the parser
-	l.backup()
+	// A line of only whitespace is fine but anything else would be lost
+	if firstRune != eof {
+		return errors.New("expected an account or a comment")
+	}
 
 	return nil
 }
-- 
2.43.0


From 104224a7803412aa298207755bb41939d9a1dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 12/43] fix: treat trailing whitespace or a comment after an
 account as an omitted amount

'  A  ' panicked and '  A  ; 5' read the comment as an amount in commodity ';'.
---
 parser/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 0931c89..cb621ac 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -261,6 +261,11 @@ func (l *lexer) lexPosting() error {
 			return nil
 		}
 
+		// Trailing whitespace or a comment means the amount is elided
+		if next := l.peek(); next == eof || isCommentIndicator(next) {
+			return nil
+		}
+
 		// Lex the commodity
 		commodity := l.lexCommodity()
 		if l.consumeSpace() > 0 {
-- 
2.43.0


From 602f7c4fac703f6a434ce35e7ac1352579968492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 13/43] fix: reject short dates instead of panicking

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 719bfb9..30d19f2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -124,6 +124,10 @@ func parseDate(content []rune) (time.Time, error) {
 	var date time.Time
 	var err error
 
+	if len(content) < 5 {
+		return time.Time{}, fmt.Errorf("date is malformed: %s", s)
+	}
+
 	switch content[4] {
 	case '-':
 		date, err = time.Parse(dashDateFormat, s)
-- 
2.43.0


From a76ff9aee3c8da7ea2c8fc3fe4f0b4d88ea82fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 14/43] fix: name the location of errors found at the end of a
 file

---
 parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index cb621ac..24ad603 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -85,7 +85,7 @@ func (l *lexer) lex() error {
 				// Let the parser know we have reached the end of the file
 				parseError := l.parser(eofItem, nil)
 				if parseError != nil {
-					return parseError
+					return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, parseError)
 				}
 				break
 			}
-- 
2.43.0


From 21e373b9ffed0cd31028fc2d01ee66e22ef232a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 15/43] fix: read lines longer than the reader's buffer

Any line over 4096 bytes ended the program ('Unhandled split line'), including
lines print itself had written.
---
 parser/lexer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 24ad603..10046a8 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -91,8 +91,17 @@ func (l *lexer) lex() error {
 			}
 			return err
 		}
+		// Lines longer than the reader's buffer arrive in pieces
 		if isPrefix {
-			log.Fatalln("Unhandled split line (todo)")
+			line = append([]byte(nil), line...)
+		}
+		for isPrefix {
+			var rest []byte
+			rest, isPrefix, err = l.reader.ReadLine()
+			if err != nil {
+				return err
+			}
+			line = append(line, rest...)
 		}
 
 		// Reset the positions
-- 
2.43.0


From 376fd43ad834017037a2e8ee507fe1cfce91f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 16/43] fix: do not prefix absolute include paths with the
 including directory

---
 parser/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 10046a8..7cb0420 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -184,8 +184,10 @@ func (l *lexer) lexIncludeDirective() error {
 
 	// We need to add any directory information here
 	// because the parser does not know about where we're including from
-	dir, _ := filepath.Split(l.locationHint)
-	fileToInclude = append([]rune(dir), fileToInclude...)
+	if !filepath.IsAbs(string(fileToInclude)) {
+		dir, _ := filepath.Split(l.locationHint)
+		fileToInclude = append([]rune(dir), fileToInclude...)
+	}
 
 	return l.parser(includeItem, fileToInclude)
 }
-- 
2.43.0


From 7bd1b55a4ca2584fd5eee10e3f1c062ebcf3152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 17/43] fix: attribute transactions after a nested include to
 the file they are in

Returning from any include dropped all files but the first, so what follows a
nested include was attributed to the root journal.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 30d19f2..6bb9631 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -83,7 +83,7 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 		}
 
 		// Drop the file from the slice
-		p.journalFiles = p.journalFiles[:1]
+		p.journalFiles = p.journalFiles[:len(p.journalFiles)-1]
 	case dateItem:
 		// This will start a transaction so check if we need to close a previous one
 		// in case there is no empty line between transactions
-- 
2.43.0


From 9e9538c20f5b1c9d2fa2d698df579063860b124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 18/43] fix: attribute a transaction directly before an include
 to its own file

The transaction was only closed inside the included file, under that file's name.
---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 6bb9631..39dbdc3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -63,6 +63,12 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 			return err
 		}
 	case includeItem:
+		// An included file starts afresh, so close any open transaction
+		// while we still know which file it was found in
+		if err := p.transactionBuilder.endTransaction(*p); err != nil {
+			return err
+		}
+
 		path := string(content)
 
 		// Add the file to the slice
-- 
2.43.0


From ace7943895afa51fc71d47d7b649bd8d813f3c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 19/43] fix: reject include cycles

They were followed until file descriptors or memory ran out.
---
 parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 39dbdc3..7a4ce36 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"strconv"
 	"time"
 
@@ -71,6 +72,13 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 
 		path := string(content)
 
+		// A file that is still being read would include itself for ever
+		for _, f := range p.journalFiles {
+			if filepath.Clean(f) == filepath.Clean(path) {
+				return fmt.Errorf("include cycle: %s", path)
+			}
+		}
+
 		// Add the file to the slice
 		p.journalFiles = append(p.journalFiles, path)
 
-- 
2.43.0


From 0c44188414df84e6002d9bc715c2c0d917fcfa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 20/43] fix: compare transaction dates and date options in the
 same time zone

Dates were compared as UTC against local bounds: west of UTC --begin D left out
the transactions of D and --end D included them.
---
 cmd/common.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/common.go b/cmd/common.go
index 94d9ae3..4d81d97 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -120,7 +120,10 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 		end = time.Now().AddDate(0, 0, 1)
 	}
 
-	withinRange := (t.Date.Equal(start) || t.Date.After(start)) && (end.IsZero() || t.Date.Before(end))
+	// Transaction dates are read as UTC but the bounds are local
+	date := time.Date(t.Date.Year(), t.Date.Month(), t.Date.Day(), 0, 0, 0, 0, time.Local)
+
+	withinRange := (start.IsZero() || !date.Before(start)) && (end.IsZero() || date.Before(end))
 
 	return withinRange, nil
 }
-- 
2.43.0


From 753fa50f27c3128d4e0387c2cca3af7d1d63d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 21/43] fix: do not include tomorrow's transactions with
 --current

The bound was this time tomorrow, which is after the start of tomorrow.
---
 cmd/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/common.go b/cmd/common.go
index 4d81d97..b30c09e 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -117,7 +117,8 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 
 	if current {
 		start = time.Time{}
-		end = time.Now().AddDate(0, 0, 1)
+		now := time.Now()
+		end = time.Date(now.Year(), now.Month(), now.Day()+1, 0, 0, 0, 0, time.Local)
 	}
 
 	// Transaction dates are read as UTC but the bounds are local
-- 
2.43.0


From bd98dea367daddfb0199fe248403758145b1d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 22/43] fix: print transactions of the same date in journal
 order

---
 cmd/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/print.go b/cmd/print.go
index 19e4f94..fef79a0 100644
--- a/cmd/print.go
+++ b/cmd/print.go
@@ -52,7 +52,7 @@ func (pj *printJournal) transactionHandler(t *journal.Transaction, _ string) err
 }
 
 func (pj *printJournal) prepare() {
-	sort.Slice(pj.transactions, func(i, j int) bool {
+	sort.SliceStable(pj.transactions, func(i, j int) bool {
 		return pj.transactions[i].Date.Before(pj.transactions[j].Date)
 	})
 }
-- 
2.43.0


From 1f26daaae75bd89cdba6434804524da45f3669b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 23/43] fix: keep the order of postings matched by filters

It was the iteration order of a map, so with several commodities the same balance
command printed different results.
---
 cmd/common.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/common.go b/cmd/common.go
index b30c09e..20e6b1c 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -158,8 +158,11 @@ func checkAgainstFilters(t *journal.Transaction) (matchedTransaction bool, posti
 			matchedPostings[p] = true
 		}
 	}
-	for k := range matchedPostings {
-		postings = append(postings, k)
+	// Keep the order of the transaction
+	for _, p := range t.Postings {
+		if matchedPostings[p] {
+			postings = append(postings, p)
+		}
 	}
 
 	return false, postings, nil
-- 
2.43.0


From f93f0d10e25945b1fcc306373753a8d732037a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 24/43] fix: list the files in statistics in a fixed order

---
 cmd/stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/stats.go b/cmd/stats.go
index 98c7926..307bbd1 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -183,7 +183,12 @@ func (js *statisticsJournal) report() {
 
 	// Report the files
 	fmt.Printf("Transactions found in %d files:\n", len(js.journalFiles))
+	paths := make([]string, 0, len(js.journalFiles))
 	for p := range js.journalFiles {
+		paths = append(paths, p)
+	}
+	sort.Strings(paths)
+	for _, p := range paths {
 		fmt.Printf("  %s\n", p)
 	}
 
-- 
2.43.0


From 9baa2292882acc6460b26fd47cd09f2de7a5bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 25/43] fix: do not report +Inf transactions per day for a
 single day

---
 cmd/stats.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 307bbd1..b5d9fd6 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -202,7 +202,8 @@ func (js *statisticsJournal) report() {
 	fmt.Printf("Time period:\t\t%.f days\n", days)
 
 	// Report transaction count
-	transactionsPerDay := float64(js.transactionCount) / days
+	// (all transactions could be on one day so guard against dividing by 0)
+	transactionsPerDay := float64(js.transactionCount) / math.Max(1, days)
 	fmt.Printf("Transactions:\t\t%d (%.1f per day)\n", js.transactionCount, transactionsPerDay)
 
 	// Report number of unique accounts
-- 
2.43.0


From ccc778ecfa04cbe379de358ec350c8103b260d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 26/43] fix: compute the age of money from the final ten ages

With more than 20 ages it summed all but the final eleven and divided by the
number of all of them.
---
 cmd/stats.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index b5d9fd6..58a7965 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -158,12 +158,12 @@ expenseLoop:
 		}
 	}
 
-	rangeCap := 0
-	if len(ages) > 20 {
-		rangeCap = 11
+	// we only care about the final 10
+	if len(ages) > 10 {
+		ages = ages[len(ages)-10:]
 	}
 	var summedAges time.Duration = 0
-	for _, a := range ages[:len(ages)-rangeCap] { // we only care about the final 10
+	for _, a := range ages {
 		summedAges += a
 	}
 
-- 
2.43.0


From 4fa54a81010b87d547eaeb7985d2d4bb67bf899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 27/43] fix: keep zero accounts that have non-zero accounts
 below them

An account whose children cancel out was removed from the balance report together
with the children.
---
 journal/account.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index 15a2447..af96853 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -189,17 +189,11 @@ func (a *Account) findAccounts(matcher func(a Account) bool, found []*Account) [
 	return found
 }
 
+// RemoveEmptyChildren removes descendents which have a zero amount unless something below them does not
 func (a *Account) RemoveEmptyChildren() {
-	matcher := func(a Account) bool {
-		return a.Amount.Quantity == 0
-	}
-	matching := a.FindAccounts(matcher)
-	for _, m := range matching {
-		if m.Name == RootID {
-			continue
-		}
-		m.Unlink()
-	}
+	a.RemoveChildren(func(a Account) bool {
+		return a.Amount.Quantity != 0
+	})
 }
 
 // Unlink removes this account from it's parents
-- 
2.43.0


From c6ba2c3b0b80cd8242878df2c6e9f2da1df13cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 28/43] fix: do not panic on a posting to the account
 'Expenses' itself in a budget

Nothing is left of the path once 'Expenses' is stripped.
---
 journal/account.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/journal/account.go b/journal/account.go
index af96853..6effd39 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -126,6 +126,9 @@ func (a *Account) FindOrCreateAccount(components []string) *Account {
 
 // Returns the deepest account found and any remaining components
 func (a *Account) findChild(components []string) (*Account, []string) {
+	if len(components) == 0 {
+		return a, nil
+	}
 	if account, didFind := a.Children[components[0]]; didFind {
 		if len(components) > 1 {
 			return account.findChild(components[1:])
-- 
2.43.0


From 5ea23e63d1274e8fd795d59a2b6e0467b07c5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 29/43] fix: do not share path components between sibling
 accounts

From the fourth level on, creating an account overwrote the last component of its
siblings.
---
 journal/account.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/journal/account.go b/journal/account.go
index 6effd39..0adf170 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -101,7 +101,8 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 	if parent == nil || parent.Name == RootID || parent.Name == BudgetRootID {
 		child.PathComponents = []string{components[0]}
 	} else {
-		child.PathComponents = append(parent.PathComponents, components[0])
+		// Copy so that siblings do not share (and overwrite) spare capacity
+		child.PathComponents = append(append([]string{}, parent.PathComponents...), components[0])
 	}
 
 	child.Path = child.CreatePath()
-- 
2.43.0


From 8908f2170304a6940139afb245c10cb010cbe52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 30/43] fix: show the budgeted amount under Budgeted and the
 activity under Activity

---
 cmd/budget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/budget.go b/cmd/budget.go
index a982ea5..e2adaf1 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -152,7 +152,7 @@ func (bp *budgetProcessor) report() {
 				panic(err)
 			}
 
-			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, expenseAccount.Amount, envelopeAccount.Amount, amount.DisplayableQuantity(true))
+			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
 		}
 
 		fmt.Println()
-- 
2.43.0


From 322de87ddfe0b73a57f363dd64ac9f2b6a8726b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 31/43] fix: give nested budget categories a commodity at every
 level

Only the deepest account got one: a nested category printed warnings about
unmatched commodities and was shown without its commodity.
---
 journal/budget.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/journal/budget.go b/journal/budget.go
index da2cb3c..1956d5e 100644
--- a/journal/budget.go
+++ b/journal/budget.go
@@ -98,12 +98,18 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 	}
 
 	// Make the envelope account
+	setCommodity := func(a *Account) error {
+		if a.Amount.Commodity == "" {
+			a.Amount.Commodity = p.Amount.Commodity
+		}
+		return nil
+	}
 	envelopeAccount := bm.EnvelopeRoot.FindOrCreateAccount(pathComponents)
-	envelopeAccount.Amount.Commodity = p.Amount.Commodity
+	envelopeAccount.WalkAncestors(setCommodity)
 
 	// Make the expense account
 	expenseAccount := bm.ExpenseRoot.FindOrCreateAccount(pathComponents)
-	expenseAccount.Amount.Commodity = p.Amount.Commodity
+	expenseAccount.WalkAncestors(setCommodity)
 
 	if pt == EnvelopePosting {
 		// Add to the envelope account
-- 
2.43.0


From 601cbb6aa36f9f43b8306d0c3cf1ff92afcf47a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 32/43] fix: do not panic on an empty filter argument

---
 reporting/filter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reporting/filter.go b/reporting/filter.go
index 236b1da..bb84a89 100644
--- a/reporting/filter.go
+++ b/reporting/filter.go
@@ -2,6 +2,7 @@ package reporting
 
 import (
 	"regexp"
+	"strings"
 	"unicode"
 
 	"github.com/rikchilvers/gledger/journal"
@@ -32,11 +33,11 @@ type Filter struct {
 func NewFilter(arg string) (Filter, error) {
 	filter := Filter{}
 
-	switch []rune(arg)[0] {
-	case '@':
+	switch {
+	case strings.HasPrefix(arg, "@"):
 		filter.FilterType = PayeeFilter
 		arg = arg[1:]
-	case '=':
+	case strings.HasPrefix(arg, "="):
 		filter.FilterType = NoteFilter
 		arg = arg[1:]
 	default:
-- 
2.43.0


From c51abc489414b557be2f0662e2e86e869919e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 33/43] fix: accept only digits as the year of a date option

'+202' and '-202' were read as years.
---
 parser/dates.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/parser/dates.go b/parser/dates.go
index ce7fb68..01f97a3 100644
--- a/parser/dates.go
+++ b/parser/dates.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"errors"
 	"fmt"
-	"strconv"
 	"strings"
 	"time"
 )
@@ -52,12 +51,7 @@ func parseYear(date string) (time.Time, error) {
 		return time.Time{}, fmt.Errorf("could not parse year: '%s'", date)
 	}
 
-	year, err := strconv.Atoi(date)
-	if err != nil {
-		return time.Time{}, err
-	}
-
-	return time.Date(year, time.January, 1, 0, 0, 0, 0, time.Local), nil
+	return time.ParseInLocation("2006", date, time.Local)
 }
 
 // parseYearMonth expects dates in the format 2020/06
-- 
2.43.0


From 8822b8200258422a0e542b22839c23a206d6f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 34/43] fix: sum the amounts of a transaction without overflow

---
 journal/transaction.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/journal/transaction.go b/journal/transaction.go
index ca3090e..7625dd5 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -3,6 +3,8 @@ package journal
 import (
 	"errors"
 	"fmt"
+	"math"
+	"math/big"
 	"time"
 )
 
@@ -95,7 +97,8 @@ func (t *Transaction) AddPosting(p *Posting) error {
 // Close ensures the transaction balances (assigning an amount to an elided posting as necessary)
 func (t *Transaction) Close() error {
 	// Check the transaction balances
-	sum := int64(0)
+	// (the sum of amounts may not fit in 64 bits)
+	sum := new(big.Int)
 	c := ""
 	for _, p := range t.Postings {
 		if p.Amount == nil {
@@ -105,13 +108,16 @@ func (t *Transaction) Close() error {
 		if len(p.Amount.Commodity) > 0 {
 			c = p.Amount.Commodity
 		}
-		sum += p.Amount.Quantity
+		sum.Add(sum, big.NewInt(p.Amount.Quantity))
 	}
 
 	if t.postingWithElidedAmount != nil {
+		if sum.CmpAbs(big.NewInt(math.MaxInt64)) > 0 {
+			return errors.New("elided amount is too large")
+		}
 		// NB: setting the commodity like this will not work with multiple currencies
-		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
-	} else if sum != 0 {
+		t.postingWithElidedAmount.Amount = NewAmount(c, -sum.Int64())
+	} else if sum.Sign() != 0 {
 		return errors.New("transaction does not balance")
 	}
 
-- 
2.43.0


From 39091d97a93e2ab11a9b814f1fd2308f503f77c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 35/43] fix: statistics over more than 292 years

---
 cmd/stats.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 58a7965..e3bbaa7 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -132,7 +132,8 @@ func (js *statisticsJournal) prepare() {
 	})
 
 	// Calculate age of money
-	ages := make([]time.Duration, 0)
+	// (in seconds, because a time.Duration cannot hold more than 292 years)
+	ages := make([]int64, 0)
 
 expenseLoop:
 	for _, ek := range expenseKeys {
@@ -144,8 +145,7 @@ expenseLoop:
 				continue
 			}
 
-			duration := ek.Sub(ik)
-			ages = append(ages, duration)
+			ages = append(ages, ek.Unix()-ik.Unix())
 
 			// Handle not having enough in the income bucket
 			if expense > income {
@@ -162,17 +162,15 @@ expenseLoop:
 	if len(ages) > 10 {
 		ages = ages[len(ages)-10:]
 	}
-	var summedAges time.Duration = 0
+	var summedAges int64 = 0
 	for _, a := range ages {
 		summedAges += a
 	}
 
 	// filter arguments could mean there were no transactions to process
 	// so we need to guard against dividing by 0 later
-	count := int64(math.Max(1, float64(len(ages))))
-	summedAges = time.Duration(summedAges.Nanoseconds() / count)
-
-	js.ageOfMoney = math.Max(summedAges.Hours()/24, 0)
+	count := math.Max(1, float64(len(ages)))
+	js.ageOfMoney = math.Max(float64(summedAges)/count/(24*60*60), 0)
 }
 
 func (js *statisticsJournal) report() {
@@ -197,8 +195,8 @@ func (js *statisticsJournal) report() {
 	fmt.Printf("Last transaction:\t%s (%s)\n", js.lastTransactionDate.Format(dateLayout), humanize.Time(js.lastTransactionDate))
 
 	// Report duration
-	duration := js.lastTransactionDate.Sub(js.firstTransactionDate)
-	days := math.Round(duration.Hours() / 24)
+	duration := js.lastTransactionDate.Unix() - js.firstTransactionDate.Unix()
+	days := math.Round(float64(duration) / (24 * 60 * 60))
 	fmt.Printf("Time period:\t\t%.f days\n", days)
 
 	// Report transaction count
-- 
2.43.0


From 376f5ecda9aefdd20b9aa968c276b56dc2886539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 36/43] fix: do not report adding nothing as an unmatched
 commodity

---
 journal/amount.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/journal/amount.go b/journal/amount.go
index 5eafc9f..22cc2ff 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -40,6 +40,10 @@ func (a Amount) DisplayableQuantity(withCommodity bool) string {
 
 // Add adds an amount to this one
 func (a *Amount) Add(other Amount) error {
+	// Adding nothing is fine whatever it is nothing of
+	if other.Quantity == 0 {
+		return nil
+	}
 	if a.Commodity != other.Commodity {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled addition of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
@@ -50,6 +54,10 @@ func (a *Amount) Add(other Amount) error {
 
 // Subtract subtracts an amount from this one
 func (a *Amount) Subtract(other Amount) error {
+	// Subtracting nothing is fine whatever it is nothing of
+	if other.Quantity == 0 {
+		return nil
+	}
 	if a.Commodity != other.Commodity {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled subtraction of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
-- 
2.43.0


From 2974dd04b1354aecf79ee3a8384fd97c9962fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 37/43] fix: treat an account as the root because it is one,
 not because of its name

---
 journal/account.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index 0adf170..6c25e60 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -52,12 +52,17 @@ func (a *Account) asString(level int) string {
 	return s
 }
 
+// isRoot returns whether this account is the root of a tree and not merely named like one
+func (a *Account) isRoot() bool {
+	return a.Parent == nil && (a.Name == RootID || a.Name == BudgetRootID)
+}
+
 // CreatePath creates a : delimited string from the Account's ancestry
 func (a *Account) CreatePath() string {
 	path := a.Name
 	current := a
 	for {
-		if current.Parent == nil || current.Parent.Name == RootID || current.Parent.Name == BudgetRootID {
+		if current.Parent == nil || current.Parent.isRoot() {
 			return path
 		}
 		path = fmt.Sprintf("%s:%s", current.Parent.Name, path)
@@ -69,7 +74,7 @@ func (a *Account) CreatePath() string {
 func (a *Account) Head() *Account {
 	current := a
 	for {
-		if current.Parent == nil || current.Parent.Name == RootID || current.Parent.Name == BudgetRootID {
+		if current.Parent == nil || current.Parent.isRoot() {
 			return current
 		}
 		current = current.Parent
@@ -98,7 +103,7 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 		parent.Children[child.Name] = child
 	}
 
-	if parent == nil || parent.Name == RootID || parent.Name == BudgetRootID {
+	if parent == nil || parent.isRoot() {
 		child.PathComponents = []string{components[0]}
 	} else {
 		// Copy so that siblings do not share (and overwrite) spare capacity
-- 
2.43.0


From f726c2e1cdb0a6cdd35e0cb58e11fece61a4379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 38/43] fix: unlink pruned accounts from their parents

---
 journal/account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index 6c25e60..deddc2a 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -161,8 +161,8 @@ func (a *Account) SortedChildNames() []string {
 func (a *Account) PruneChildren(targetDepth, currentDepth int) {
 	// If we've reached the target depth, remove all children
 	if currentDepth == targetDepth {
-		for key := range a.Children {
-			delete(a.Children, key)
+		for _, child := range a.Children {
+			child.Unlink()
 		}
 	}
 	for _, child := range a.Children {
-- 
2.43.0


From 664292a76094ba8072e22f36397bcd3addc558e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 39/43] fix: read a last line that ends with the reader's
 buffer

---
 parser/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 7cb0420..17bd12a 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -98,6 +98,10 @@ func (l *lexer) lex() error {
 		for isPrefix {
 			var rest []byte
 			rest, isPrefix, err = l.reader.ReadLine()
+			if err == io.EOF {
+				// The file ends where the buffer did
+				break
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 230e307333dc5bd0be53f0d1b9a08cb6a1c6475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 40/43] fix: do not list p as a name of print, it is one of
 payees

---
 cmd/print.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/print.go b/cmd/print.go
index fef79a0..871830c 100644
--- a/cmd/print.go
+++ b/cmd/print.go
@@ -14,7 +14,6 @@ func init() {
 
 var printCmd = &cobra.Command{
 	Use:          "print",
-	Aliases:      []string{"p"},
 	Short:        "Shows transaction entries, sorted by date",
 	SilenceUsage: true,
 	Run: func(_ *cobra.Command, _ []string) {
-- 
2.43.0


From 0a382333230c8c0a494c95ff4123a98a1cb58d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 41/43] fix: keep the first line of a drawn tree apart from the
 second when it is empty

A tree or flattened tree whose first line is empty (an account without a
name, drawn without a prepender) lost the line break after that line.
---
 reporting/flattenedtree.go | 16 ++++++----------
 reporting/tree.go          |  7 +++++--
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/reporting/flattenedtree.go b/reporting/flattenedtree.go
index 807c7b4..8e8ae3d 100644
--- a/reporting/flattenedtree.go
+++ b/reporting/flattenedtree.go
@@ -3,6 +3,7 @@ package reporting
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/rikchilvers/gledger/journal"
 )
@@ -13,24 +14,19 @@ func FlattenedTree(a journal.Account, prepender func(a journal.Account) string)
 	if prepender == nil {
 		prepender = func(a journal.Account) string { return "" }
 	}
-	return flattenedTree(a, prepender, "")
+	return strings.Join(flattenedTree(a, prepender, nil), "\n")
 }
 
-func flattenedTree(a journal.Account, prepender func(a journal.Account) string, current string) string {
+func flattenedTree(a journal.Account, prepender func(a journal.Account) string, lines []string) []string {
 	// If this account has no children, add its path
 	if len(a.Children) == 0 {
-		if len(current) == 0 {
-			// Don't add a newline at the start
-			return fmt.Sprintf("%s%s%s", current, prepender(a), a.Path)
-		} else {
-			return fmt.Sprintf("%s\n%s%s", current, prepender(a), a.Path)
-		}
+		return append(lines, fmt.Sprintf("%s%s", prepender(a), a.Path))
 	}
 
 	// If it does have children, descend to them
 	for _, childName := range a.SortedChildNames() {
-		current = flattenedTree(*a.Children[childName], prepender, current)
+		lines = flattenedTree(*a.Children[childName], prepender, lines)
 	}
 
-	return current
+	return lines
 }
diff --git a/reporting/tree.go b/reporting/tree.go
index 30d4a11..73e0391 100644
--- a/reporting/tree.go
+++ b/reporting/tree.go
@@ -13,6 +13,7 @@ type treeContext struct {
 	collapsedAccounts          string
 	collapsedAccountsDepth     int
 	tree                       string
+	hasLines                   bool // the first line may be empty, so tree can be empty although it has lines
 	shouldCollapseOnlyChildren bool
 }
 
@@ -61,12 +62,13 @@ func tree(a journal.Account, c treeContext) treeContext {
 			// If this only child has 0 or >1 children
 			// we need to add the line to the tree + the prepended string
 			spaces := calculateSpaces(c.collapsedAccountsDepth)
-			if len(c.tree) == 0 {
+			if !c.hasLines {
 				// If this is the first account, don't add a newline
 				c.tree = fmt.Sprintf("%s%s%s:%s", c.prepender(a), spaces, c.collapsedAccounts, a.Name)
 			} else {
 				c.tree = fmt.Sprintf("%s\n%s%s%s:%s", c.tree, c.prepender(a), spaces, c.collapsedAccounts, a.Name)
 			}
+			c.hasLines = true
 			c.collapsedAccounts = ""
 			c.isOnlyChild = false
 		}
@@ -88,12 +90,13 @@ func tree(a journal.Account, c treeContext) treeContext {
 			c.isOnlyChild = true // let the Account's child know it has no siblings
 		} else {
 			// If we have 0 or >1 children, we should add ourselves to the tree
-			if len(c.tree) == 0 {
+			if !c.hasLines {
 				// If this is the first account, don't add a newline
 				c.tree = fmt.Sprintf("%s%s%s", c.prepender(a), calculateSpaces(c.depth), a.Name)
 			} else {
 				c.tree = fmt.Sprintf("%s\n%s%s%s", c.tree, c.prepender(a), calculateSpaces(c.depth), a.Name)
 			}
+			c.hasLines = true
 			c.isOnlyChild = false // let the Account's children know they have siblings
 		}
 
-- 
2.43.0


From 3fcfad4dc9608315d60810dc353f86d7fb3c4cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 42/43] fix: do not take the part of a line before a read error
 for a line

ReadLine returns what it has when the reader fails in the middle of a line
and drops the error, so a passing error tore a line in two unnoticed.
---
 parser/lexer.go | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 17bd12a..67f9a0c 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -4,6 +4,7 @@ package parser
 
 import (
 	"bufio"
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -79,33 +80,22 @@ func (l *lexer) ingest() error {
 func (l *lexer) lex() error {
 	l.currentLine = 1
 	for {
-		line, isPrefix, err := l.reader.ReadLine()
-		if err != nil {
-			if err.Error() == "EOF" {
-				// Let the parser know we have reached the end of the file
-				parseError := l.parser(eofItem, nil)
-				if parseError != nil {
-					return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, parseError)
-				}
-				break
-			}
+		// A line of any length, or what is left at the end of the file. An error in the
+		// middle of a line must not be mistaken for the end of that line, as ReadLine does.
+		line, err := l.reader.ReadBytes('\n')
+		if err != nil && err != io.EOF {
 			return err
 		}
-		// Lines longer than the reader's buffer arrive in pieces
-		if isPrefix {
-			line = append([]byte(nil), line...)
-		}
-		for isPrefix {
-			var rest []byte
-			rest, isPrefix, err = l.reader.ReadLine()
-			if err == io.EOF {
-				// The file ends where the buffer did
-				break
+		if len(line) == 0 {
+			// Let the parser know we have reached the end of the file
+			parseError := l.parser(eofItem, nil)
+			if parseError != nil {
+				return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, parseError)
 			}
-			if err != nil {
-				return err
-			}
-			line = append(line, rest...)
+			break
+		}
+		if bytes.HasSuffix(line, []byte("\n")) {
+			line = bytes.TrimSuffix(line[:len(line)-1], []byte("\r"))
 		}
 
 		// Reset the positions
-- 
2.43.0


From 387f2a91d792aececfe2e4f0131602ea528782a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:11 +0000
Subject: [PATCH 43/43] fix: closing a transaction again overwrote the amount
 it had filled in

---
 journal/transaction.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/journal/transaction.go b/journal/transaction.go
index 7625dd5..dfb1183 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -117,6 +117,8 @@ func (t *Transaction) Close() error {
 		}
 		// NB: setting the commodity like this will not work with multiple currencies
 		t.postingWithElidedAmount.Amount = NewAmount(c, -sum.Int64())
+		// The amount isn't elided any more: closing again must not overwrite it
+		t.postingWithElidedAmount = nil
 	} else if sum.Sign() != 0 {
 		return errors.New("transaction does not balance")
 	}
-- 
2.43.0

