#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Every accepted transaction balances to zero",
 "The postings of every transaction that reaches a report sum to exactly zero. A transaction whose written amounts do not sum to zero is rejected unless exactly one posting omits its amount, in which case that posting receives exactly the amount that brings the sum to zero (0.00 when nothing is left) in the transaction's commodity. A transaction, or a budget allocation, in which two or more postings omit their amount is rejected.",
 ["inputs", "histories"],
 "All transactions: any number of postings, any position of the omitted amount, any history of transactions before it in the file.",
 "The tests never build a whole transaction: journal/transaction_test.go is empty, so Close and the omitted-amount rule are not executed at all by a passing test; the rule must hold for every mix and order of postings.",
 ["journal/transaction.go", "parser/transactionbuilder.go"],
 [("the closing sum and the balancing amount", "journal/transaction.go: Transaction.Close"),
  ("at most one omitted amount", "journal/transaction.go: Transaction.AddPosting"),
  ("postings of the open transaction are added in turn", "parser/transactionbuilder.go: buildNormalTransaction, endNormalTransaction")],
 ["gledger print", "gledger balance (total line)", "transactions handed to the handlers of parser.NewParser"],
 [("open transaction", "postings read since the last header", "parser/transactionbuilder.go: transactionBuilder"),
  ("posting with omitted amount", "at most one per transaction", "journal/transaction.go: postingWithElidedAmount")])

prop("C02", "Amounts are exact to the hundredth",
 "A written amount (optional commodity, optional sign, whole part, optionally a point and one or two decimals) is read as exactly that many hundredths, and every report shows it, its negation and its sums exactly, with two decimals, over the whole signed 64-bit range of hundredths. Text that is not such an amount - more decimals, missing digits, stray signs or characters, a value out of range - is rejected and never rounded, truncated or wrapped.",
 ["inputs"],
 "All amount texts, and all sums whose exact value fits in 64 bits.",
 "The tests parse three amounts (42.81, +42.81, -42) and two malformed ones and display four; the property quantifies over every digit string, including one decimal digit, many digits and the edges of the range.",
 ["parser/parser.go", "journal/amount.go", "parser/lexer.go"],
 [("amount text to hundredths", "parser/parser.go: parseAmount"),
  ("hundredths to text", "journal/amount.go: DisplayableQuantity"),
  ("splitting commodity from amount", "parser/lexer.go: lexPosting, lexCommodity")],
 ["gledger print", "gledger balance"])

prop("C03", "Every transaction is read completely, once and in order",
 "Reading a well-formed journal yields every transaction written in it exactly once, in the order written, with its date, state mark, payee, header note, notes, and its postings in order with their account, commodity, amount and comments, each attached to the transaction or posting it was written under. Nothing written in one transaction ends up in another, and no posting or note line is dropped. Blank lines, the next header, the next budget entry, an include and the end of the file all end a transaction; comment lines at the margin do not.",
 ["inputs", "histories"],
 "All well-formed journals: any sequence of headers, postings, notes, comments, blank lines, budget entries and file ends.",
 "The only lexer and builder tests feed one header or one item at a time; no test reads two lines. The property is about every sequence of lines, since what a line means depends on the state left by all lines before it.",
 ["parser/lexer.go", "parser/parser.go", "parser/transactionbuilder.go", "journal/transaction.go", "journal/posting.go"],
 [("line classification and fields", "parser/lexer.go: lexLine and the functions it calls"),
  ("items grouped into transactions", "parser/transactionbuilder.go: build, endTransaction"),
  ("what closes a transaction", "parser/parser.go: parseItem")],
 ["gledger print", "transactions handed to the handlers of parser.NewParser"],
 [("open transaction", "transaction being built, if any", "parser/transactionbuilder.go: transaction, periodicTransaction"),
  ("current posting", "posting that following comments attach to", "parser/transactionbuilder.go: currentPosting")])

prop("C04", "Malformed journals are rejected whole, with a location, without crashing",
 "Whatever bytes a journal contains, every command terminates without crashing. If any line cannot be understood (unknown directive or line kind, impossible date, posting with no transaction to belong to, posting line that does not start with an account, unreadable amount, unbalanced transaction, missing included file), the command prints an error that names, for each file from the journal to the offending one, the file and the line reached, and prints no part of the report.",
 ["inputs", "fault_sequences"],
 "All byte sequences as journals and all positions of a fault inside an otherwise well-formed journal, at any include depth, for every command.",
 "Tests check that five malformed dates or amounts return an error from one function; none feeds a malformed journal to a command, none checks location or absence of partial output, and the space of malformed texts and positions is unbounded.",
 ["parser/lexer.go", "parser/parser.go", "parser/transactionbuilder.go", "cmd/common.go"],
 [("line number and file added to errors", "parser/lexer.go: lex; parser/parser.go: Parse, parseItem"),
  ("report only after a complete read", "cmd/*.go: Run functions"),
  ("rejection of unknown lines", "parser/lexer.go: lexLine, lexPosting")],
 ["output and exit status of every command"])

prop("C05", "Printing a journal yields an equivalent journal",
 "The output of print is itself an accepted journal that holds the same transactions: same dates, states, payees, notes, postings, comments and amounts, with omitted amounts filled in. Printing that output again reproduces it byte for byte, and balance, accounts and payees give the same output for it as for the original journal.",
 ["inputs"],
 "All accepted journals.",
 "No test prints a transaction. Round trip has to hold for every combination of note, comment, payee, commodity and amount text.",
 ["journal/transaction.go", "journal/posting.go", "journal/amount.go", "parser/lexer.go", "cmd/print.go"],
 [("text form of a transaction", "journal/transaction.go: String; journal/posting.go: String"),
  ("reading it back", "parser/lexer.go: lexTransactionHeader, lexPosting")],
 ["gledger print, fed back to gledger print/balance/accounts/payees"])

prop("C06", "print shows exactly the selected transactions in stable date order",
 "print shows every selected transaction exactly once and nothing else, each one whole even when only one of its postings was matched. Transactions appear in date order, and transactions of the same date in the order they were read, however many there are.",
 ["inputs", "histories"],
 "All journals and selections, any number of transactions per day.",
 "There is no test of any command. Instability of an order shows only for inputs large enough for the sort to switch algorithm.",
 ["cmd/print.go", "cmd/common.go"],
 [("collection", "cmd/print.go: transactionHandler"), ("ordering", "cmd/print.go: prepare")],
 ["gledger print"])

prop("C07", "Account balances roll up exactly",
 "In the balance report every account that received a selected posting, and every ancestor of such an account, appears exactly once (zero balances included when asked for), and its amount is exactly the sum of the selected postings to it and to its descendants. The last line is the sum of all selected postings, which is 0.00 when no filter restricts postings. This does not depend on the order of transactions or on how accounts are interleaved (for journals in one commodity).",
 ["inputs", "histories"],
 "All single-commodity journals; all account trees of any depth and width; all orders in which accounts are first seen.",
 "Tests create accounts but never post to them; roll-up over any tree shape and any posting history is not exercised.",
 ["journal/journal.go", "journal/account.go", "cmd/balance.go", "cmd/common.go", "reporting/tree.go"],
 [("posting added to account and all ancestors", "journal/journal.go: wireUpPosting; journal/account.go: WalkAncestors"),
  ("account lookup and creation by path", "journal/account.go: FindOrCreateAccount")],
 ["gledger balance -Z"],
 [("account tree", "accounts, parents, running amounts", "journal/journal.go: Journal.Root")])

prop("C08", "Hiding zero balances never hides money",
 "By default the balance report leaves out exactly the accounts whose own balance and whose every descendant's balance are zero; an account that has a non-zero balance is always shown together with all its ancestors. Showing zero accounts (-Z) adds lines and changes no other line's amount or the total.",
 ["inputs"],
 "All single-commodity journals and selections.",
 "No test runs the balance report or removes empty accounts; the cases where a zero parent has non-zero children need specific data.",
 ["cmd/balance.go", "journal/account.go"],
 [("removal of empty accounts", "journal/account.go: RemoveEmptyChildren, RemoveChildren, Unlink"),
  ("when it applies", "cmd/balance.go: prepareBalance")],
 ["gledger balance", "gledger balance -Z"])

prop("C09", "Tree, collapsed and flat layouts agree",
 "The default balance layout lists accounts depth first, siblings in byte order of their names, each on its own line indented two spaces per level below a 20-column amount with commodity. The collapsed layout (-C) is the same except that a chain of accounts with a single shown child each is one line 'A:B:C' at the place of its first account with the amount of its last; the flat layout (-F) lists exactly the shown accounts without shown children, by full path, in the same order with the same amounts. The total line is the same in all three.",
 ["inputs", "configurations"],
 "All shapes of shown account tree and all combinations of -F, -C and -Z.",
 "The two reporting tests do not compile at the pinned commit, so no tree is ever rendered by a test; layout depends on the whole shape of the tree.",
 ["reporting/tree.go", "reporting/flattenedtree.go", "cmd/common.go", "journal/account.go"],
 [("tree and collapse", "reporting/tree.go: Tree, tree"), ("flat list", "reporting/flattenedtree.go"),
  ("amount column and total", "cmd/common.go: report"), ("sibling order", "journal/account.go: SortedChildNames")],
 ["gledger balance with and without -F -C -Z"])

prop("C10", "Date options select exactly the written calendar days",
 "With --begin D a report covers exactly the transactions dated on or after D, with --end D exactly those dated before D, with both their intersection, with --current exactly those dated on or before today whatever --begin and --end say, and with none of them all. D may be year, year/month, month/day (of this year) or year/month/day with / . or - and stands for the first day it names; the machine's time zone never moves a boundary. Any other text is an error as soon as the journal has a transaction to compare with.",
 ["inputs", "configurations"],
 "All dates, all option combinations, all time zones, all commands.",
 "Tests parse a few smart dates and never apply them to a transaction; none runs in a time zone other than the machine's.",
 ["cmd/common.go", "parser/dates.go", "cmd/root.go"],
 [("range test", "cmd/common.go: withinDateRange"), ("smart dates", "parser/dates.go: ParseSmartDate"),
  ("applied by every command", "cmd/common.go: checkAgainstFilters, dateCheckedTransactionHandler")],
 ["every command with --begin/--end/--current under several TZ values"])

prop("C11", "Filters select exactly the matching transactions and postings",
 "A transaction is covered in full by balance, print, statistics and budget if any '@pattern' argument matches its payee or any '=pattern' argument matches its header note or one of its notes; otherwise exactly its postings whose account matches a plain pattern or one of whose comments matches an '=pattern' are covered, each once however many arguments match it (print then shows the whole transaction). With no argument everything is covered. Patterns are regular expressions that match anywhere, ignoring letter case unless they contain an upper-case letter.",
 ["inputs", "configurations"],
 "All journals and all lists of filter arguments.",
 "No test constructs a filter. The combination of several filters over several postings is a product space no example list covers.",
 ["reporting/filter.go", "cmd/common.go", "cmd/root.go"],
 [("filter kinds and case rule", "reporting/filter.go: NewFilter"), ("matching", "reporting/filter.go: MatchesTransactionHow"),
  ("union over filters", "cmd/common.go: checkAgainstFilters")],
 ["gledger balance/print/statistics/budget with arguments"])

prop("C12", "Account and payee lists are exact",
 "accounts lists every account name written in a posting of a transaction in the date range, payees every payee of such a transaction: each exactly once, in byte order, one per line, and nothing else. With patterns as arguments exactly the names matching at least one pattern are listed (for accounts, after removing a leading '@' or '=').",
 ["inputs", "configurations"],
 "All journals, date ranges and pattern lists.",
 "There is no test of any command.",
 ["cmd/accounts.go", "cmd/payees.go"],
 [("collection", "cmd/accounts.go, cmd/payees.go: transactionHandler"), ("filtering and sorting", "cmd/accounts.go, cmd/payees.go: prepare")],
 ["gledger accounts", "gledger payees"])

prop("C13", "Statistics describe exactly the selected transactions",
 "statistics reports, over exactly the selected transactions: how many there are, the first and last date and how long ago they were, the days between these, the transactions per day (over at least one day), the files they were found in, and the number of distinct payees and of distinct accounts among the covered postings. With no selected transaction it says so and nothing else. The age of money is the mean number of days between income and the spending it paid for, income being used up oldest first, over the last ten such matches in spending order, not below 0.",
 ["inputs", "configurations"],
 "All journals, all selections, all moments; age of money for journals whose daily income and daily spending are not negative.",
 "There is no test of any command; minimum, maximum, distinct counts and first-in-first-out matching depend on the order and grouping of the whole history.",
 ["cmd/stats.go"],
 [("accumulation", "cmd/stats.go: transactionHandler"), ("age of money", "cmd/stats.go: prepare"), ("rendering", "cmd/stats.go: report")],
 ["gledger statistics"])

prop("C14", "Included files are read in place, each under its own name",
 "An include line stands for the content of the named file at that place, to any depth: relative names are resolved against the directory of the file that contains the line, absolute names are used as they are, and transactions are read in the order of the expanded text. A transaction open before an include ends there, and one open at the end of an included file ends there. Each transaction is attributed to the file it is written in; an include that cannot be opened, or that would include a file already being read, is an error.",
 ["inputs", "histories", "fault_sequences"],
 "All include trees over any directory layout, including repeated (diamond) includes, cycles, missing files, and includes directly after a transaction.",
 "No test includes a file. The file stack is history: attribution after returning from nested files needs depth three or more to go wrong.",
 ["parser/parser.go", "parser/lexer.go"],
 [("path resolution", "parser/lexer.go: lexIncludeDirective"), ("file stack", "parser/parser.go: parseItem includeItem, journalFiles")],
 ["gledger print/balance/statistics on multi-file journals", "path argument given to parser.TransactionHandler"],
 [("file stack", "files currently being read", "parser/parser.go: Parser.journalFiles")])

prop("C15", "Monthly budget figures are exact",
 "The budget report has one section per month that has an allocation ('~ YYYY-MM' entry) or a selected Expenses or Income posting, in chronological order. In it Funds is minus the sum of that month's selected Income postings, and there is one row per category - an allocated account's first name, or the name after 'Expenses' for spending - in byte order, where Budgeted is the sum allocated to the category and its sub-accounts that month, Activity is minus the sum spent in it that month, and Available is their sum. No month's figure is affected by another month (for journals in one commodity).",
 ["inputs", "histories", "configurations"],
 "All single-commodity journals with any number of months, allocations per month, nested categories, refunds, overspending and unbudgeted categories.",
 "Nothing in budget.go is executed by any test; figures depend on every posting of the month in any order.",
 ["journal/budget.go", "cmd/budget.go", "parser/transactionbuilder.go", "parser/parser.go"],
 [("allocation and spending per month", "journal/budget.go: AddPosting, addIncomePosting, normaliseToMonth"),
  ("category choice and columns", "cmd/budget.go: transactionHandler, periodicTransactionHandler, report"),
  ("implicit budget source", "parser/transactionbuilder.go: endNormalTransaction")],
 ["gledger budget"],
 [("months", "envelope, expense and income amounts per month", "journal/budget.go: Budget.Months")])

prop("C16", "Reports are deterministic and leave files alone",
 "Running the same command with the same arguments on the same files (on the same day) prints byte-identical output every time. No command creates, changes or removes any file.",
 ["schedules", "inputs", "configurations"],
 "All commands, journals (mixed commodities included) and arguments; all iteration orders the runtime may choose.",
 "A test runs once; the runtime randomises map iteration on every run, so a dependency on it is visible only over many runs and with data on which the order matters.",
 ["cmd/common.go", "cmd/stats.go", "cmd/accounts.go", "cmd/payees.go", "cmd/budget.go", "journal/account.go", "reporting/tree.go"],
 [("sorting before output", "SortedChildNames, sort calls in cmd/*.go"), ("postings kept in written order", "cmd/common.go: checkAgainstFilters")],
 ["every command, repeatedly"])

prop("C17", "Account tree operations keep the tree consistent",
 "After any sequence of account look-ups/creations, postings, prunings to a depth, removals by a condition and unlinkings: looking up a path gives the same account until it is removed and creates exactly the missing accounts; every account is its parent's child under its own name; its path, path components and top-level ancestor spell its ancestry; an amount equals what was posted at or below it. Pruning removes exactly the accounts below the depth, removal by condition keeps exactly those accounts that satisfy it or have a descendant that does, and the leaf query returns exactly the accounts without children.",
 ["histories", "inputs"],
 "All sequences of operations of the exported account API on trees of any depth and width.",
 "Tests check a handful of fixed trees one operation at a time; sharing between siblings (for instance of path components) shows only for particular depths and orders of creation.",
 ["journal/account.go", "journal/journal.go"],
 [("creation", "journal/account.go: newAccountWithChildren, FindOrCreateAccount"), ("pruning and removal", "journal/account.go: PruneChildren, RemoveChildren, RemoveEmptyChildren, Unlink"),
  ("queries", "journal/account.go: FindAccounts, Leaves, Head, CreatePath, SortedChildNames")],
 ["exported API of package journal"])

prop("C18", "Budget entries never leak into other reports",
 "Allocations ('~' entries) influence the budget report only: adding, removing or changing well-formed allocations anywhere between transactions changes nothing in balance, print, accounts, payees and statistics. Conversely, in the budget report a transaction without Expenses or Income postings changes nothing.",
 ["inputs", "histories"],
 "All journals with allocations at any position, including directly before or after a transaction without a blank line.",
 "No test reads an allocation. The builder shares its current posting between the two kinds of entry, so leaks depend on what precedes and follows.",
 ["parser/transactionbuilder.go", "parser/parser.go", "journal/journal.go", "cmd/budget.go"],
 [("kinds of entry kept apart", "parser/transactionbuilder.go: beginTransaction, endTransaction"), ("allocations ignored by the journal", "journal/journal.go: AddPeriodicTransaction")],
 ["all commands on a journal with and without its allocations"])

prop("C19", "All reports describe the same selection",
 "For the same journal and date options (and the same filters, for commands that share their meaning) all reports agree: balances are the sums of the postings print shows (restricted to the matched postings), accounts and payees are those of the printed transactions, statistics counts the printed transactions and their payees, accounts, first and last dates, and budget activity and funds are the sums of the printed Expenses and Income postings per month.",
 ["inputs", "configurations"],
 "All journals and option combinations.",
 "Each command collects transactions with its own handler; no test runs any, let alone two on the same input.",
 ["cmd/common.go", "cmd/balance.go", "cmd/print.go", "cmd/accounts.go", "cmd/payees.go", "cmd/stats.go", "cmd/budget.go"],
 [("one handler per command over a shared selection", "cmd/common.go: checkAgainstFilters, dateCheckedTransactionHandler, withinDateRange")],
 ["all commands on the same journal"])

prop("C20", "The layout of the journal text does not change its meaning",
 "Rewriting a journal without changing its words changes no report: posting indentation of two or more spaces or a tab, two or more spaces or a tab between account and amount, trailing blanks on lines (other than in the text of notes and comments), one or more blank or comment lines between transactions, whitespace-only and margin comment lines inside them, CRLF line ends, a missing last line end, any of the three date separators, a '+' sign, and trailing zeros of decimals.",
 ["inputs"],
 "All well-formed journals and all combinations of these rewritings.",
 "No test reads a journal; equivalence over all rewritings of all journals is a relation between inputs that examples do not state.",
 ["parser/lexer.go", "parser/parser.go", "parser/transactionbuilder.go"],
 [("whitespace and comment handling", "parser/lexer.go: consumeSpace, takeToTabOrNextLineOrComment, takeUntilMoreThanOneSpace, lexLine"), ("date formats", "parser/parser.go: parseDate")],
 ["gledger print/balance on rewritten journals"])

prop("C21", "Calendar dates are read exactly or rejected",
 "A transaction date written as a four-digit year, two-digit month and two-digit day with the same separator (- . or /) is read as exactly that day of the Gregorian calendar, and an allocation's 'YYYY-MM' as that month. Any other text in their place in a transaction header, and any day that does not exist (month 00 or 13, 31 April, 29 February outside leap years), is rejected.",
 ["inputs"],
 "All date texts in headers.",
 "Six literal dates are tested.",
 ["parser/parser.go", "parser/lexer.go"],
 [("header date", "parser/parser.go: parseDate"), ("allocation month", "parser/parser.go: parsePeriod")],
 ["gledger print", "gledger budget"])

prop("C22", "However a command is written, it does the same; misuse is an error",
 "A command does the same however it is invoked: by its name or any of its aliases, with short or long options, their values attached, after '=' or as the next argument, combined single-letter switches, options before, between or after the filter arguments, everything after '--' being filters, the last of repeated options counting, and the journal named by --file or, only in its absence, by $LEDGER_FILE. An unknown command or option, a missing or malformed option value, an argument that is not a regular expression, and a journal that is not named or cannot be opened are errors that print no part of any report.",
 ["inputs", "configurations"],
 "All argument lists and both sources of the journal's name, up to this: options of one command do not precede its name and no option's value is itself a command's name.",
 "No test runs a command; the equivalences range over all spellings of all option combinations.",
 ["cmd/root.go", "cmd/common.go", "cmd/balance.go", "cmd/print.go", "cmd/accounts.go", "cmd/payees.go", "cmd/stats.go", "cmd/budget.go", "reporting/filter.go"],
 [("flags and aliases", "cmd/root.go: init, Execute; cmd/*.go: init"), ("journal's name", "cmd/common.go: parse, rootJournalPath"), ("filter patterns", "reporting/filter.go: NewFilter")],
 ["the gledger command line"])

prop("C23", "Drawn account trees show every account once, in its place",
 "package reporting draws the accounts below any account of any tree. As a tree: every account below it has one line, after its parent's, siblings in byte order of their names, each level indented by two more blanks; with only children collapsed, a run of accounts of which each has exactly one child is one line, the names joined by ':', standing for the last of the run. Flattened: one line for each account without children, its path, in the same order. The caller's function, if there is one, is put before each line for the account the line stands for. Lines are separated by single line ends, none first or last, and drawing changes nothing.",
 ["inputs", "histories"],
 "All trees, also after accounts have been pruned, removed and created again, drawn from any account, with and without the caller's function.",
 "Two fixed trees are drawn by the tests.",
 ["reporting/tree.go", "reporting/flattenedtree.go", "journal/account.go"],
 [("walk with collapsed runs", "reporting/tree.go: Tree, tree"), ("flattened walk", "reporting/flattenedtree.go: FlattenedTree"), ("order of children", "journal/account.go: SortedChildNames")],
 ["package reporting: Tree, FlattenedTree"])

prop("C24", "Package parser hands over entries faithfully and stops when told to",
 "Parser.Parse calls the handlers for a journal's transactions and allocations in the order of the journal, includes expanded, each once, with what is written (date, state, payee, notes, postings with accounts, amounts and comments, the omitted amount filled in; postings link to their transaction) and the file it is in; nothing handed over changes afterwards, and kinds of entry without a handler are passed over. This does not depend on the pieces in which the reader delivers the bytes. When a handler returns an error, no handler is called again and Parse's error wraps that error below the locations 'file:line' of all files being read; when the reader fails, at any byte, Parse's error wraps the reader's and just the entries that the whole lines before it complete have been handed over.",
 ["inputs", "crash_points", "histories"],
 "All journals, chunkings of the root file's bytes, bytes at which its reader fails (once or for good), handler calls that are refused and handlers that are missing.",
 "No test calls Parse; the order of calls and failures at every byte range over histories and fault points.",
 ["parser/parser.go", "parser/lexer.go", "parser/transactionbuilder.go"],
 [("lines from a reader", "parser/lexer.go: lex"), ("locations of errors", "parser/parser.go: Parse, parseItem"), ("calls of handlers", "parser/transactionbuilder.go: endTransaction")],
 ["package parser: NewParser, Parser.Parse"])

prop("C25", "Package journal keeps its records straight, in whatever order it is used",
 "A transaction holds its postings, notes and comments in the order they were added, and its text form shows them all. At most one of its postings may omit its amount at a time: adding another such posting is an error and changes nothing. Close fills in exactly the missing amount, in the transaction's commodity; when it cannot balance the transaction, or the amount does not fit in 64 bits, it is an error and changes nothing; closing again changes nothing, and after closing a posting may omit its amount again. A posting entered in a Journal is credited to exactly its account and that account's ancestors, which list their own postings and transactions in the order entered. A posting entered in a Budget counts in exactly the month of its transaction: as an envelope, in its category and the category's ancestors up to EnvelopeRoot (_budget_root_: EnvelopeRoot's amount alone); as an expense, subtracted from the category named after the first part of its path and that category's ancestors in ExpenseRoot; as income, subtracted from Income and from EnvelopeRoot's amount. Every category entered either way is found in both trees of its month. Budget entries (no interval) added to a Journal change no account. Amounts add, subtract and display exactly over 64 bits.",
 ["inputs", "histories"],
 "All sequences of calls that create, extend, close, print and enter transactions and postings, with any interleaving of several transactions (one commodity; every posting has its amount when entered and is entered at most once, as an expense only if its path begins with Expenses).",
 "journal/transaction_test.go is empty and no test enters a posting in a journal or budget; the guarantee is about every history of calls, such as adding to a transaction that was closed or refused.",
 ["journal/transaction.go", "journal/posting.go", "journal/amount.go", "journal/journal.go", "journal/budget.go", "journal/account.go"],
 [("at most one omitted amount", "journal/transaction.go: AddPosting, Close"), ("entering in the accounts", "journal/journal.go: AddPosting, wireUpPosting"),
  ("entering in a month", "journal/budget.go: AddPosting, addIncomePosting, normaliseToMonth"), ("sums", "journal/amount.go: Add, Subtract, DisplayableQuantity")],
 ["package journal: Transaction, Posting, Amount, Journal, Budget"],
 [("omitted posting", "the posting that closing fills in", "journal/transaction.go: postingWithElidedAmount"),
  ("months", "what was budgeted, spent and earned per month", "journal/budget.go: Budget.Months")])

prop("C26", "A filter means the same to every function of package reporting",
 "NewFilter reads a leading '@' as payee, a leading '=' as notes and anything else as account, drops that one mark, takes the rest as a regular expression that matches anywhere, regardless of case exactly if the rest has no upper-case letter, and is an error exactly if that is not a valid expression. MatchesTransactionHow reports the payee for a payee filter; for a note filter whether the header's note or any other note of the transaction matches, and each posting with a matching comment; for an account filter each posting with a matching account path - each such posting exactly once, and nothing else. MatchesTransaction is true exactly if MatchesTransactionHow reports anything, and MatchesString is the expression applied to the text whatever the kind. MatchesRegex is true for no arguments, and otherwise true exactly if some argument's filter matches; it is an error if an invalid argument is met before one that matches. ContainsUppercase holds exactly if some letter of the text is upper-case. Being asked changes neither a transaction nor a filter, so later answers do not depend on earlier questions.",
 ["inputs", "histories"],
 "All pattern texts, all transactions, whatever is added to them between questions, any number of filters in use together.",
 "No test makes a filter; the guarantee covers every pattern, text and order of questions, and that two functions written separately always agree.",
 ["reporting/filter.go"],
 [("kind and pattern of an argument", "reporting/filter.go: NewFilter, ContainsUppercase"), ("how a transaction is matched", "reporting/filter.go: MatchesTransactionHow"),
  ("whether it is matched", "reporting/filter.go: MatchesTransaction, MatchesRegex")],
 ["package reporting: NewFilter, Filter, MatchesRegex, ContainsUppercase"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
