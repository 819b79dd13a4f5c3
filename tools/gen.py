"""Random cases for conformance checking: journals and runs, by property.

A case is what harness/drive runs and spec/Trace.tla judges.  Nothing here
knows what a run should print: the specification decides that.
"""
import random
import re

MAXQ = 2**63 - 1
ALPHABET = ("\t !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`"
            "abcdefghijklmnopqrstuvwxyz{|}~\u00a0£½ÉßéΩω٣€日\ufffd")
TZS = ["UTC", "America/New_York", "Asia/Tokyo", "Pacific/Kiritimati", "Pacific/Pago_Pago",
       "Europe/London", "Asia/Kolkata", "America/St_Johns", "Australia/Lord_Howe", "Africa/Cairo",
       "America/Sao_Paulo", "Atlantic/Azores"]
COMMANDS = ["print", "accounts", "payees", "balance", "statistics", "budget"]
MONTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def mdays(y, m):
    return 29 if m == 2 and leap(y) else MONTH[m - 1]


def nextday(d, n=1):
    import datetime
    day = datetime.date(*d).toordinal() + n
    day = min(max(day, datetime.date(1000, 1, 1).toordinal()), datetime.date.max.toordinal())
    return tuple(datetime.date.fromordinal(day).timetuple()[:3])


def dtext(d, sep="-"):
    return "%04d%s%02d%s%02d" % (d[0], sep, d[1], sep, d[2])


def money(q, r=None):
    """The text of q hundredths; with r, any of its spellings."""
    sign, q = ("-" if q < 0 else ""), abs(q)
    w, c = divmod(q, 100)
    s = "%d.%02d" % (w, c)
    if r is not None:
        if c % 10 == 0 and r.random() < 0.4:
            s = "%d.%d" % (w, c // 10)
        if c == 0 and r.random() < 0.5:
            s = "%d" % w
        if r.random() < 0.05:
            s = "0" * r.randint(1, 3) + s
        if sign == "" and r.random() < 0.1:
            sign = "+"
    return sign + s


def lowered(p):
    """A pattern's letters in lower case, but not those that mean something."""
    return re.sub(r"\\.|[^\\]", lambda m: m.group() if m.group()[0] == "\\" else m.group().lower(), p)


class Gen:
    def __init__(self, seed, today):
        self.r = random.Random(seed)
        self.today = tuple(today)
        self.base = (2020, 11, 3)

    def one(self, *q):
        return self.r.choice(q)

    def p(self, x):
        return self.r.random() < x

    # ---- words ----------------------------------------------------------
    NAMES = ["Food", "Food-x", "Foods", "food", "Bank", "Bank A", "A1", "Zoo", "Zoo's", "éclair", "Épices", "日日",
             "B-1", "Car & Van", "x", "Rent (old)", "Cash.", "50", "Old;New", "No #1", "a b c", "Tax", "Gifts", "ß",
             "Ω", "Old\u00a0Bank", "_u", "+p", "*s", "Q4", "Long name with many words in it"]
    TOPS = ["Assets", "Expenses", "Income", "Liabilities", "Equity", "A", "a", "Expense", "Incomes", "Éxtra", "Expenses-2"]
    PAYEES = ["Été", "été d'or", "ÉTÉ", "Shop", "shop", "SHOP", "The Café", "Employer Ltd", "Landlord", "x", "Café & Bar", "A.B. (C)", "Bus/Train",
              "50% off", "Caf\u00e9\u00a0Noir", "Zoo", "Zoo two", "a-b", "日日", "Opening balance", "= odd", "@home", "*star", "Tab-less", ""]
    NOTES = ["a note", "Note; with semicolon", "hash # inside", "two  spaces", "x", "@payee-like", "= odd", "tag: value",
             "Éclair ß Ω", "ends with ;", "£5.00 off", "non\u00a0breaking", "2020-01-01 not a date", "UPPER", ":colon:", "", "trailing ",
             "; twice", ";;", "#tag", "# heading", "; # both", "include x.journal", "~ 2020-01"]

    def component(self):
        return self.r.choice(self.NAMES)

    def account_pool(self, n, depth=4, tops=None, names=None, empties=0.02):
        tops = tops or self.r.sample(self.TOPS, min(len(self.TOPS), self.r.randint(1, 5)))
        names = names or self.r.sample(self.NAMES, self.r.randint(2, len(self.NAMES)))
        pool = []
        for _ in range(n):
            if pool and self.p(0.4):
                base = self.r.choice(pool).split(":")
                base = base[:self.r.randint(1, len(base))]
            else:
                base = [self.r.choice(tops)]
            while len(base) < depth and self.p(0.6):
                if self.p(0.01):                        # blanks beside a colon
                    base[-1] += " "
                base.append((" " if self.p(0.01) else "") + self.r.choice(names) if not self.p(empties) else self.one("", "", "_root_"))
            pool.append(":".join(base))
        return pool

    def payee(self):
        if self.p(0.2):
            return self.word(self.r.randint(1, 12)).strip(" ;#!*") or "p"
        return self.r.choice(self.PAYEES)

    def word(self, n):
        cs = "abcdefgXYZ 0123456789-_.,:()&'éΩ£日\u00a0"
        s = "".join(self.r.choice(cs) for _ in range(n))
        while "  " in s:
            s = s.replace("  ", " ")
        return s

    def note(self):
        return self.r.choice(self.NOTES) if self.p(0.8) else self.word(self.r.randint(0, 20)).strip()

    # ---- dates ----------------------------------------------------------
    def day(self, base=None, spread=60):
        base = base or self.base
        if self.p(0.15):
            y = base[0] + self.r.randint(-1, 1)
            return self.one((y, 1, 1), (y, 12, 31), (y, 2, mdays(y, 2)), (y, 3, 1), (y, 2, 28), (y, base[1], 1),
                            (y, base[1], mdays(y, base[1])))
        return nextday(base, self.r.randint(0, spread))

    def far(self):
        y = self.one(2, 99, 1000, 1582, 1600, 1677, 1700, 1900, 1901, 1950, 2037, 2038, 2106, 2262, 2300, 5000, 9999)
        m = self.r.randint(1, 12)
        return (y, m, self.r.randint(1, mdays(y, m)))

    def pick_base(self):
        if self.p(0.1):                                 # a journal of these days
            self.base = nextday(self.today, -self.r.randint(0, 59))
            return self.base
        y = self.one(2020, 2019, 2000, 1999, 2024, 2100, 1970, 1969, 1900, 2400, 1804, 9990, self.today[0])
        self.base = (y, self.r.randint(1, 12), self.r.randint(1, 28))
        return self.base

    # ---- amounts --------------------------------------------------------
    def cents(self, big=False):
        k = self.r.random()
        if k < 0.15:
            return self.one(0, 1, 10, 99, 100, 101, 5, 50, 1000)
        if big and k < 0.4:
            return self.r.choice([2**53, 2**53 + 1, 2**60 + 7, 10**15 + 1, 10**17 - 1, 2**31, 2**32 + 1, 10**10,
                                  self.r.randint(0, 2**60), self.r.randint(1, 9) * 2**self.r.choice([8, 16, 31, 32, 33, 40, 48, 52])])
        if k < 0.6:
            return self.r.randint(1, 999)
        if k < 0.9:
            return self.r.randint(1, 99999)
        return self.r.randint(1, 10**9)

    # ---- transactions ---------------------------------------------------
    def txn(self, pool, date=None, n=None, com="£", big=False, notes=0.3, elide=0.4, budget=False):
        """A transaction that balances."""
        r = self.r
        n = n or r.choice([1, 2, 2, 2, 2, 3, 3, 4, 5, 8] if self.p(0.95) else [9, 12, 20])
        accounts = [r.choice(pool) for _ in range(n)]
        qs = [self.cents(big) * r.choice([1, -1]) for _ in range(n)]
        if n == 1:
            qs = [0]
        else:
            i = r.randrange(n)
            if n > 2 and self.p(0.1):                   # the same posting twice
                k = (i + 1) % n
                accounts[(k + 1) % n], qs[(k + 1) % n] = accounts[k], qs[k]
            qs[i] -= sum(qs)
        posts = [dict(account=a, q=q, com=com, comments=[]) for a, q in zip(accounts, qs)]
        if self.p(elide) and n > 1:
            r.choice(posts)["q"] = None
        elif n == 1 and com == "" and self.p(0.5):
            posts[0]["q"] = None
        for p in posts:
            if p["q"] == 0 and self.p(0.25):            # nothing, of nothing
                p["com"] = ""
            while self.p(notes * 0.5):
                p["comments"].append(self.note())
        t = dict(kind="txn", date=date or self.day(), state=r.choice([" ", "!", "*"]), payee=self.payee(),
                 note=self.note().strip() if self.p(notes) else "", notes=[], posts=posts)
        while self.p(notes * 0.6):
            t["notes"].append(self.note())
        return t

    def alloc(self, cats, month=None, com="£", elide=0.2, n=None):
        r = self.r
        d = self.day()
        month = month or (d[0], d[1])
        n = r.randint(1, 4) if n is None else n
        posts = [dict(account=r.choice(cats), q=self.cents() * (1 if self.p(0.85) else -1), com=com, comments=[]) for _ in range(n)]
        if n > 1 and self.p(elide):
            r.choice(posts)["q"] = None
        for p in posts:
            while self.p(0.1):
                p["comments"].append(self.note())
        return dict(kind="alloc", month=month, posts=posts, notes=[self.note() for _ in range(r.choice([0, 0, 0, 1, 2]))])

    # ---- rendering ------------------------------------------------------
    PLAIN = dict(indent=["    "], gap=["    "], trail=[""], mark=["; "], between=[[""]], inside=[], sep=["-"], spell=False)
    WILD = dict(indent=["  ", "    ", "\t", "\t\t", "      ", "  \t"], gap=["  ", "    ", "\t", "\t\t", "   \t"],
                trail=["", "", "", " ", "  ", "\t"], mark=["; ", ";", "# ", ";   "],
                between=[[""], [""], ["", ""], ["; margin comment", ""], ["", "# margin", ";", ""], ["", "", "", ""]],
                inside=["; margin inside", "    ", "# m", "\t", "  \t  "], sep=["-", "-", "/", "."], spell=True)

    def amount_text(self, p, st):
        return p["com"] + (money(p["q"], self.r if st["spell"] else None))

    def post_lines(self, p, st):
        c = self.r.choice
        s = c(st["indent"]) + p["account"]
        if p["q"] is not None:
            s += c(st["gap"]) + self.amount_text(p, st)
        s += c(st["trail"])
        if st.get("inline") and self.p(st["inline"]):
            s += "  " + c([";", "#"]) + c(["", " "]) + "ignored"
        out = [s]
        for n in p["comments"]:
            out.append(c(st["indent"]) + c(st["mark"]) + n)
        return out

    def render(self, e, st=None):
        st = st or self.PLAIN
        c = self.r.choice
        if e["kind"] == "txn":
            s = dtext(e["date"], c(st["sep"]))
            if e["state"] != " ":
                s += " " * (c([1, 1, 2]) if st["spell"] else 1) + e["state"]
            if e["payee"]:
                s += " " * (c([1, 1, 2]) if st["spell"] else 1) + e["payee"]
            if e["note"]:
                s += c(["  ", "    "] + ["\t"] * (len(s) > 10) if st["spell"] else ["    "]) + c(["; ", ";", "# "] if st["spell"] else ["; "]) + e["note"]
            else:
                s += c([t for t in st["trail"] if t[:1] != "\t" or len(s) > 10])
        elif e["kind"] == "alloc":
            s = "~ %04d-%02d" % e["month"] + c(st["trail"])
        else:
            return list(e["lines"])
        out = [s]
        body = []
        for n in e["notes"]:
            body.append([c(st["indent"]) + c(st["mark"]) + n])
        for p in e["posts"]:
            body.append(self.post_lines(p, st))
        for b in body:
            for l in b:
                if st["inside"] and self.p(0.08):
                    out.append(c(st["inside"]))
                out.append(l)
        return out

    def text(self, entries, st=None, last_blank=None):
        st = st or self.PLAIN
        lines = []
        if st["spell"] and self.p(0.3):
            lines += self.one([""], ["; title", ""], ["# title"])
        for i, e in enumerate(entries):
            if i and not (st["spell"] and self.p(0.15)):
                lines += self.r.choice(st["between"])
            lines += self.render(e, st)
        if last_blank if last_blank is not None else self.p(0.3):
            lines.append("")
        return lines

    # ---- whole journals --------------------------------------------------
    def entries(self, n=None, depth=4, com=None, big=False, allocs=0.0, notes=0.3, days=None, pool=None, elide=0.4,
                zeros=0.0, budget=False, limit=True):
        r = self.r
        if self.p(0.7):
            self.pick_base()
        com = com if com is not None else r.choice(["£", "£", "£", "$", "", "EUR ", "£ ", "€", "kg"])
        n = n if n is not None else r.choice([1, 2, 3, 4, 5, 6, 8, 10, 15])
        pool = pool or self.account_pool(r.randint(2, 12), depth)
        if not days:
            days = [self.day() for _ in range(r.choice([1, 2, 3, 5, 10]))]
            if self.p(0.07):
                days += [self.far() for _ in range(r.randint(1, 3))]
        out, used = [], 0
        cats = [a.split(":", 1)[1] for a in pool if a.startswith("Expenses:") and a.split(":", 1)[1][:1].isalpha()] + ["Rent", "Food:Out", "Expenses"]
        for _ in range(n):
            if self.p(allocs):
                d = r.choice(days)
                out.append(self.alloc(cats, month=(d[0], d[1]) if self.p(0.8) else None, com=com))
                continue
            t = self.txn(pool, date=r.choice(days), com=com, big=big, notes=notes, elide=elide)
            size = sum(abs(p["q"] or 0) for p in t["posts"]) * 2
            if limit and used + size > MAXQ:
                t = self.txn(pool, date=t["date"], com=com, notes=notes, elide=elide)
                size = sum(abs(p["q"] or 0) for p in t["posts"]) * 2
                if used + size > MAXQ:
                    break
            used += size
            out.append(t)
            if zeros and self.p(zeros):                       # the same again, reversed
                u = dict(t, posts=[dict(p, q=None if p["q"] is None else -p["q"], comments=[]) for p in t["posts"]], notes=[])
                out.append(u)
                used += size
        return out

    def style(self):
        if self.p(0.3):
            return self.PLAIN
        st = dict(self.WILD)
        st["inline"] = self.one(0, 0, 0.2)
        if self.p(0.08):                                 # blanks that are neither ' ' nor tab
            st["indent"] = st["indent"] + ["\t\u00a0", "  \u00a0", "\t\u00a0\t"]
            st["gap"] = st["gap"] + ["  \u00a0", "\t\u00a0", "  \u00a0\t"]
            st["inside"] = st["inside"] + ["\t\u00a0", "  \u00a0 "]
        return st

    def journal(self, **kw):
        """One file."""
        es = self.entries(**kw)
        return dict(files={"j.journal": self.text(es, self.style())}, root="j.journal", entries=es)

    def split_journal(self, depth=3, absolute=False, **kw):
        """The entries spread over a tree of included files."""
        es = self.entries(**kw)
        return self.spread(es, depth, absolute)

    def spread(self, es, depth=3, absolute=False):
        r = self.r
        files = {}
        names = {"n": 0}

        def fresh(frm):
            names["n"] += 1
            d = r.choice(["", "", "sub/", "sub/deep/", "other dir/", "é/"])
            return d + r.choice(["inc", "file", "part one ", "X", "zz"]).strip() + str(names["n"]) + r.choice([".journal", ".j", ""])

        def clean(p):
            out = []
            for c in p.split("/"):
                if c in ("", "."):
                    continue
                if c == ".." and out and out[-1] != "..":
                    out.pop()
                else:
                    out.append(c)
            return ("/" if p.startswith("/") else "") + "/".join(out)

        def build(path, part, level):
            st = self.style()
            lines = []
            i = 0
            d = path.rsplit("/", 1)[0] + "/" if "/" in path else ""
            while i < len(part) or (level < depth and self.p(0.15)):
                if level < depth and (i >= len(part) or self.p(0.35)):
                    k = r.randint(0, min(4, len(part) - i))
                    rel = fresh(path)
                    how = r.random()
                    if absolute and how < 0.4:
                        rel = "/DIR/" + rel
                        target = clean(rel)
                    else:
                        if how > 0.9:
                            rel = "./" + rel
                        target = clean(d + rel) if not absolute or d.startswith("/DIR/") else clean(d + rel)
                    build(target, part[i:i + k], level + 1)
                    i += k
                    if lines and self.p(0.4):
                        lines.append("")
                    lines.append("include " + r.choice(["", "", " "]) + rel + r.choice(["", "", "  ; c", " "]))
                    if self.p(0.1) and not self.p(0.5):
                        lines.append("include " + rel)      # the same file once more
                    if self.p(0.5):
                        lines.append("")
                else:
                    if lines and lines[-1] != "":
                        if self.p(0.8):
                            lines += r.choice(st["between"])
                    lines += self.render(part[i], st)
                    i += 1
            if self.p(0.3):
                lines.append("")
            files[path] = lines
        root = self.one("j.journal", "main.journal", "top/j.journal", "./j.journal") if not absolute else "/DIR/j.journal"
        rootkey = clean(root)
        build(rootkey, es, 0)
        return dict(files=files, root=root, entries=es)

    # ---- options ----------------------------------------------------------
    def date_option(self, good=0.93, es=None):
        r = self.r
        y, m, d = self.day()
        if es and self.p(0.7):
            ds = [e["date"] for e in es if e["kind"] == "txn"]
            if ds:
                y, m, d = nextday(r.choice(ds), r.choice([-1, 0, 0, 0, 1]))
        sep = r.choice("-./")
        if not self.p(good):
            return r.choice(["x", "2020-13", "2020/02/30", "20200101", "99", "2020-1-1", "1/1", "13/01", "02/30", "2020-", "-01",
                             "2020/01.02", "2020-01-01x", "today", "20-01-01", "2020-00-10", "2019.02.29", "00/00", "+202", "2020/01/01/01",
                             "01/32", "2020 01 01", " 2020", "2020-01-", "٣020"])
        k = r.random()
        if k < 0.15:
            return "%04d" % y
        if k < 0.35:
            return "%04d%s%02d" % (y, sep, m)
        if k < 0.5:
            y = self.today[0]
            return "%02d%s%02d" % (m, sep, min(d, 28))
        return dtext((y, m, d), sep)

    def filters(self, es, kinds="apn", n=None):
        """Filter arguments that have a chance to match."""
        r = self.r
        out = []
        for _ in range(n if n is not None else r.choice([1, 1, 1, 2, 2, 3])):
            k = r.choice(kinds)
            words = []
            for e in es:
                if e["kind"] == "txn":
                    if k == "p":
                        words.append(e["payee"])
                    if k == "a":
                        words += [p["account"] for p in e["posts"]]
                    if k == "n":
                        words += [e["note"]] + e["notes"] + [c for p in e["posts"] for c in p["comments"]]
            words = [w for w in words if w] or ["Food"]
            out.append({"a": "", "p": "@", "n": "="}[k] + self.pattern(r.choice(words)))
        return out

    def pattern(self, w):
        r = self.r
        i = r.randrange(len(w))
        j = r.randint(i + 1, min(len(w), i + 40))       # matching is slow in TLC
        if self.p(0.3) and len(w) <= 40:
            i, j = 0, len(w)
        s = w[i:j]
        out = []
        for ch in s:
            if ch.isascii() and not ch.isalnum() and ch not in " _\t":
                ch = "\\" + ch if ch in "\\.+*?()|[]{}^$" or self.p(0.1) else ch
            elif ch.isascii() and ch.isalnum() and self.p(0.15):
                lo = chr(max(ord("0" if ch.isdigit() else "a" if ch.islower() else "A"), ord(ch) - 3))
                ch = r.choice([".", "[%s]" % ch, ch + "?", ch + "+", ch + "*", ".*", "[^%s]" % ("q" if ch != "q" else "r"),
                               "[%s-%s]" % (lo, ch), "[%s:x]" % ch, "[^%s-%s]" % (lo, ch), "\\w", "\\S", "\\d" if ch.isdigit() else "\\D",
                               "[\\w-]", ch + "{1}", ch + "{1,2}", ch + "{0,}", "(" + ch + ")", "(?:%s|q)" % ch,
                               "(" + ch + "|)", ".+?", ch + "??", "[]%s]" % ch])
            elif ch == " " and self.p(0.2):
                ch = r.choice(["\\s", "\\s+", "[ ]", " *"])
            out.append(ch)
        if len(out) > 1 and self.p(0.12):                # a group of several, perhaps repeated or optional
            x = r.randrange(len(out))
            y = r.randint(x + 1, len(out))
            q = r.choice(["", "", "?", "+", "*", "{1}", "{1,3}", "{2}"])
            out[x:y] = ["(" + r.choice(["", "?:"]) + "".join(out[x:y]) + r.choice(["", "", "|zoo", "|x*"]) + ")" + q]
        if out and self.p(0.08):
            out.insert(r.randrange(len(out) + 1), r.choice(["\\b", "\\b", "\\B"]))
        out = "".join(out)
        plain = "\\" not in out
        if self.p(0.4):
            out = lowered(out)
        elif self.p(0.15):                              # capitals that are not ASCII
            out = "".join(c.lower() if c.isascii() and plain else c.upper() if c in "éω" and self.p(0.5) else c for c in out)
        if self.p(0.08) and plain:
            out = out.upper()
        if i == 0 and self.p(0.3):
            out = r.choice(["^", "^", "^", "\\A"]) + out
        if j == len(w) and self.p(0.3):
            out = out + r.choice(["$", "$", "$", "\\z"])
        if self.p(0.1):
            out = out + "|" + r.choice(["Zoo", "food", "^x$", "bank"])
        elif self.p(0.05):
            out = "^(" + out.strip("^$") + "|" + r.choice(["Zoo", "food", "Bank A"]) + ")$"
        if self.p(0.04):
            out = r.choice(["", ".", ".*", "^", "$", "zzz", "^$", "\\w", "\\W", "\\d+", "[0-9]{2}", "()", "|", "^.{4}$", "\\bx\\b", "[^a-z]", "(a|e)$",
                            "^[A-Z]", "^[a-z]", "(?:)", "x{2}", "\\.", "^\\S+$"])
        # a leading mark would change the kind of argument
        return out

    def run(self, cmd, variant=1, **kw):
        d = dict(variant=variant, cmd=cmd, args=[], begin="", end="", current=False, flat=False, collapse=False, zero=False,
                 tz="UTC", env=False, long=False, sameAs=0, loose=False, moment=[])
        d.update(kw)
        return d

    SECONDS = [0, 0, 1, 2, 59, 60, 119, 120, 3599, 3600, 7199, 7200, 43200, 86398, 86399, 86399]
    TURNS = [(2020, 2, 28), (2020, 2, 29), (2020, 3, 1), (2019, 2, 28), (2019, 12, 31), (2020, 1, 1), (2020, 12, 30), (2020, 12, 31), (2021, 1, 31),
             (2020, 4, 30), (2020, 11, 1), (2000, 2, 29), (1999, 12, 31), (2100, 2, 28), (1900, 2, 28), (1970, 1, 1), (1969, 12, 31), (2038, 1, 19),
             (2020, 3, 29), (2020, 10, 25), (2020, 3, 8), (2018, 11, 4), (2400, 2, 29), (2157, 3, 16), (1850, 6, 1), (1582, 10, 15)]

    def moment(self, day, near=1):
        """What a run is told: a second of a day, or of one next to it."""
        if self.p(0.3):
            day = nextday(day, self.r.randint(-near, near))
        return list(day) + [self.r.choice(self.SECONDS) if self.p(0.8) else self.r.randrange(86400)]

    def options(self, es, dates=0.3, filters=0.3, tz=0.1, kinds="apn", current=0.04, bad=0.0):
        o = {}
        if self.p(dates):
            if self.p(0.6):
                o["begin"] = self.date_option(1 - bad, es)
            if self.p(0.6):
                o["end"] = self.date_option(1 - bad, es)
        if self.p(current):
            o["current"] = True
        if self.p(filters):
            o["args"] = self.filters(es, kinds)
        if self.p(tz):
            o["tz"] = self.r.choice(TZS)
        o["long"] = self.p(0.2)
        return o

    def layout(self):
        return self.one({}, {"flat": True}, {"collapse": True}, {"zero": True}, {"zero": True, "flat": True},
                        {"zero": True, "collapse": True}, {"flat": True, "collapse": True})

    def variant(self, j, **kw):
        return dict(dict(files=j["files"], root=j["root"], eol="\n", noend=False), **{"from": 0}, **kw)

    def case(self, group, variants, runs):
        vs = []
        for v in variants:
            v = {k: v[k] for k in v if k != "entries"}
            v.setdefault("eol", "\n")
            v.setdefault("noend", False)
            v.setdefault("from", 0)
            for f, lines in v["files"].items():
                if v["noend"] and (not lines or lines[-1] == ""):
                    v["noend"] = False
            vs.append(v)
        return dict(group=group, variants=vs, runs=runs)

    # ---- damage -----------------------------------------------------------
    BADLINES = ["account Assets", "2020-13-01 x", "2020-02-30 x", "2021-02-29 x", "2020-1-1 x", "2020-00-10 x", "2020-04-31 x", "2020_01_02 x", "2020:01:02 x",
                "2020,01,02 x", "20-01-02 x", "12020-01-02 x", "2020-001-02 x", "2020-01-02T x", "2020 01 02 x", "2020-Jan-02 x", "2020-01-02Z x",
                "20200101 x", "2020-01/01 x", "1 x", "includes x", "include", "include ", "include nowhere.journal", "~", "~2020-01",
                "x", "-", "= rule", "P 2020-01-01 EUR £1", " Assets:One  £1", " ; one space", "    1234  £1", "    -Assets  £1",
                "    (Assets)  £1", "    Assets:X  £1.234", "    Assets:X  £", "    Assets:X  £1.", "    Assets:X  £.5",
                "    Assets:X  £1,000.00", "    Assets:X  £-", "    Assets:X  £--1", "    Assets:X  £+-1", "    Assets:X  1.0.0",
                "    Assets:X  £1x", "    Assets:X  £92233720368547758.08", "    Assets:X  £99999999999999999999999",
                "    Assets:X  £1 0", "    Assets:X  £½", "    Assets:X  £٣", "2020-01-0٣ x", "\u00a0\u00a0Assets:X  £1", "é", "日",
                "    :X  £1", "    _X  £1", "i", "include ./j.journal", "    Assets:X  £1.00-", "    Assets:X  -£1", "!", "* x", "@x",
                "+2020-01-01 x", "2020-01-01x payee", "２020-01-01 x", "    *Assets:X  £1", "    Assets:X  £0x10", "    Assets:X  £1e3",
                "    Assets:X  £1_0", "    Assets:X  $", "2020-02-29x", "2019-02-29 x", "1900-02-29 x", "2020-12-32 x", "    £1  A"]

    def damage(self, lines):
        """Change a well-formed text somewhere."""
        r = self.r
        q = list(lines)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random()
            i = r.randrange(len(q) + 1)
            if k < 0.35:
                q.insert(i, r.choice(self.BADLINES))
            elif k < 0.45 and q:
                del q[r.randrange(len(q))]
            elif k < 0.5 and q:
                j = r.randrange(len(q))
                q.insert(i, q[j])
            elif k < 0.55 and len(q) > 1:
                a, b = r.randrange(len(q)), r.randrange(len(q))
                q[a], q[b] = q[b], q[a]
            elif q:
                j = r.randrange(len(q))
                s = q[j]
                x = r.randrange(len(s) + 1)
                m = r.random()
                if m < 0.4 or not s:
                    ch = r.choice(ALPHABET) if self.p(0.6) else r.choice(" \t;#-+.:/0i~*!")
                    s = s[:x] + ch + s[x:]
                elif m < 0.7:
                    x = min(x, len(s) - 1)
                    s = s[:x] + s[x + 1:]
                else:
                    x = min(x, len(s) - 1)
                    s = s[:x] + r.choice(ALPHABET) + s[x + 1:]
                q[j] = s
        return q


# ---- per property ----------------------------------------------------------

def c01(g):
    r = g.r
    g.pick_base()
    com = g.one("£", "", "$")
    pool = g.account_pool(r.randint(2, 6), 3)
    es = [g.txn(pool, com=com, big=g.p(0.3), elide=0.6) for _ in range(r.randint(1, 4))]
    # one transaction of a particular kind
    n = r.randint(1, 6) if g.p(0.7) else r.choice([7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 33, 40, 64, 65])
    k = r.random()
    qs = [g.cents(n < 7) * r.choice([1, -1]) for _ in range(n)]
    if k < 0.25:                                   # off by a little
        qs.append(-sum(qs) + r.choice([1, -1, 10, 100]))
    elif k < 0.4:                                  # off by what overflows
        qs = [MAXQ, MAXQ, r.choice([1, 2, 3, -2])] if g.p(0.5) else [-MAXQ, -MAXQ, -2]
    elif k < 0.5:
        qs = [MAXQ, r.choice([0, 1, -1]), None] if g.p(0.5) else [MAXQ, MAXQ, -MAXQ, None]
    elif k < 0.6:
        qs = [MAXQ, -MAXQ] if g.p(0.5) else [MAXQ, -MAXQ + 5, -5]
    elif k < 0.75:                                 # two omitted
        qs += [None, None]
    elif k < 0.85:
        qs += [-sum(qs), None]                     # nothing left
    elif k < 0.92:
        qs = [None] if com == "" else [0, None] if g.p(0.5) else [5, 0, None]
    else:
        qs += [None]
    if g.p(0.2):
        qs.append(0)
    if k >= 0.5 or k < 0.25:
        r.shuffle(qs)
    odd = dict(kind="txn", date=g.day(), state=r.choice(" !*"), payee=g.one("odd", g.payee()), note=g.one("", "", g.note().strip()),
               notes=[g.note() for _ in range(g.one(0, 0, 1, 2))],
               posts=[dict(account=r.choice(pool), q=q, com=com, comments=[]) for q in qs if q is None or abs(q) <= MAXQ])
    if com and g.p(0.3):                            # amounts without a commodity
        for p in odd["posts"]:
            if p["q"] == 0 or g.p(0.3):
                p["com"] = ""
    if g.p(0.15):
        odd = dict(kind="alloc", month=(g.base[0], g.base[1]), notes=[], posts=odd["posts"])
    es.insert(r.randint(0, len(es)), odd)
    j = dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    huge = any(abs(q or 0) > MAXQ // 4 for q in qs)
    runs = [g.run("print"), g.run("print", args=g.filters(es))]
    if not huge and not any(q is not None and abs(q) > MAXQ // 8 for e in es for q in [p["q"] for p in e["posts"]]):
        total = sum(abs(p["q"] or 0) for e in es for p in e["posts"])
        mixed = any(p["q"] and p["com"] != com for p in odd["posts"])
        if total * 2 < MAXQ and not mixed:
            runs += [g.run("balance", zero=True), g.run("balance", **g.layout())]
    return g.case("C01", [j], runs)


def amount_texts(g):
    """Spellings of amounts, good and bad."""
    r = g.r
    k = r.random()
    w = r.choice(["0", "1", "10", "007", "99", "12345678", "92233720368547758", "92233720368547757", "90071992547409", "9007199254740993"])
    if g.p(0.3):
        w = str(r.randint(0, 92233720368547758))
    f = r.choice(["", ".0", ".00", ".5", ".05", ".50", ".07", ".99", ".29", ".58", ".1", ".10", ".01", ".%02d" % r.randint(0, 99)])
    s = r.choice(["", "", "-", "+"])
    t = s + w + f
    if k < 0.35:
        m = r.randrange(len(t) + 1)
        t = r.choice([t + r.choice(["0", ".", "1", "-", "x", ",", " 1", "e2", "½", "٣"]), t[:m] + r.choice("0123456789.-+, x£٣½") + t[m:],
                      s + "." + w, s + w + ".", s + s + w, "-" + t, "+" + t, s, s + w + ".123", w + "-", s + " " + w, "0x1F", "1_000", "1e3",
                      s + "92233720368547758.08", s + "92233720368547759", s + "1" + "0" * r.randint(17, 30), "Inf", "NaN", s + f])
    return t


def c02(g):
    r = g.r
    com = g.one("£", "$", "", "EUR ", "kg", "£ ")
    runs, es = [], []
    if g.p(0.5):                                    # any text as the only amount
        t = amount_texts(g)
        neg = t[1:] if t.startswith("-") else "-" + t.lstrip("+")
        lines = ["2020-01-05 payee", "    Assets:Bank" + g.one("  ", "\t", "    ") + com + t,
                 "    Expenses:Food" + (g.one("  ", "    ") + com + neg if g.p(0.5) else "")]
        if g.p(0.4):
            lines = ["2020-01-01 first", "    Assets:Cash  " + com + "12.34", "    Equity", ""] + lines
        j = dict(files={"j.journal": lines}, root="j.journal")
        runs = [g.run("print"), g.run(g.one("accounts", "payees"))]
        return g.case("C02", [j], runs)
    es = g.entries(com=com, big=True, notes=0.05, allocs=0.15, n=r.choice([1, 2, 4, 8]))
    j = dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    runs = [g.run("print"), g.run("balance", zero=True), g.run("balance", **g.layout()), g.run("balance", args=g.filters(es)),
            g.run("budget")]
    return g.case("C02", [j], runs)


def c03(g):
    r = g.r
    es = g.entries(n=r.choice([1, 2, 3, 5, 8, 13, 20, 40]), big=g.p(0.2), notes=g.one(0, 0.3, 0.6), allocs=g.one(0, 0, 0.2), com=g.one("£", "", "EUR ", "£ "))
    big = g.p(0.1)
    if big:                                         # a very long line
        t = r.choice(es)
        long = "".join(r.choice("abc def") for _ in range(r.choice([r.randint(4080, 4100), r.randint(4080, 4100), r.randint(8180, 8200), 70000]))).strip()
        while "  " in long:
            long = long.replace("  ", " x")
        if g.p(0.5):
            t["notes"].append(long)
        else:
            t["posts"][-1]["comments"].append(long)
    st = g.style()
    if g.p(0.2):
        j = g.spread(es, r.choice([1, 2, 2, 3, 5]))
    else:
        j = dict(files={"j.journal": g.text(es, st)}, root="j.journal")
    v = dict(j, eol=g.one("\n", "\n", "\r\n"), noend=g.p(0.3))
    runs = [g.run("print"), g.run("accounts"), g.run("payees"), g.run("print", **g.options(es, 0.5, 0 if big else 0.5))]
    if g.p(0.3):
        runs.append(g.run("statistics", args=g.filters(es, "p")))
    return g.case("C03", [v], runs)


def c04(g):
    r = g.r
    k = r.random()
    es = g.entries(n=r.choice([1, 2, 3, 5]), allocs=0.15, com=g.one("£", ""))
    cmds = ["print", "accounts", "payees"]
    if k < 0.15:                                    # bytes
        base = "\n".join(g.text(es, g.style())).encode()
        b = bytearray(base)
        for _ in range(r.choice([1, 3, 10, 50])):
            i = r.randrange(len(b) + 1)
            m = r.random()
            if m < 0.5:
                b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 1, 2, 8])))
            elif m < 0.75 and b:
                del b[i:i + r.choice([1, 1, 4])]
            elif b:
                b[min(i, len(b) - 1)] = r.randrange(256)
        if g.p(0.2):
            b = bytearray(r.randrange(256) for _ in range(r.randint(0, 200)))
        q = '"' + "".join("\\x%02x" % x for x in b) + '"'
        v = dict(files={"j.journal": []}, root="j.journal", raw={"j.journal": q})
        runs = [g.run(c, loose=True) for c in COMMANDS]
        runs += [g.run("balance", loose=True, **g.layout())]
        return g.case("C04", [v], runs)
    if k < 0.4:
        j = g.spread(es, r.choice([1, 2, 2, 3, 5]))
        f = r.choice(sorted(j["files"]))
        if g.p(0.7):
            j["files"][f] = g.damage(j["files"][f])
        else:                                       # almost an include
            x = r.choice(sorted(j["files"])).split("/")[-1]
            j["files"][f].insert(r.randint(0, len(j["files"][f])),
                                 r.choice(["includes ", "included ", "Include ", "include-", "inc ", "include\t", "include  ",
                                           "include\u00a0", "!include ", " include ", "include: ", "include"]) + x)
        if g.p(0.2):
            j["files"].pop(f)
            if not j["files"]:
                j["files"]["other"] = []
    else:
        lines = g.text(es, g.style())
        if g.p(0.9):
            lines = g.damage(lines)
        j = dict(files={"j.journal": lines}, root="j.journal")
    if j["root"].replace("./", "") not in j["files"]:
        return c04(g)
    v = dict(j, eol=g.one("\n", "\n", "\r\n"), noend=g.p(0.3))
    runs = [g.run(c) for c in cmds]
    loose = [g.run(c, loose=True) for c in ["balance", "statistics", "budget"]]
    # commodities may differ after damage, so the figures of these are not
    # judged, but a rejected journal is rejected by every command
    return g.case("C04", [v], runs + loose)


def c05(g):
    r = g.r
    es = g.entries(n=r.choice([1, 2, 3, 6, 10, 25]), big=g.p(0.3), notes=0.5, com=g.one("£", "£", "", "EUR ", "kg"))
    st = g.style()
    j = dict(files={"j.journal": g.text(es, st)}, root="j.journal")
    runs = [g.run("print")]
    checks = [("balance", dict(zero=True)), ("accounts", {}), ("payees", {}), ("balance", g.layout())]
    for c, o in checks:
        runs.append(g.run(c, **o))
    n = len(runs)
    runs.append(g.run("print", variant=2, sameAs=1))
    for i, (c, o) in enumerate(checks):
        runs.append(g.run(c, variant=2, sameAs=i + 2, **o))
    return g.case("C05", [j, {"files": {"p.journal": []}, "root": "p.journal", "from": 1}], runs)


# days next to each other that a comparison of anything but the dates gets wrong
CRITICAL = [(2020, 2, 28), (2020, 2, 29), (2020, 3, 1), (2019, 12, 30), (2019, 12, 31), (2020, 1, 1), (2020, 12, 30), (2020, 12, 31),
            (2021, 1, 1), (2021, 2, 28), (2021, 3, 1), (2021, 12, 31), (2020, 9, 9), (2020, 9, 10), (2020, 10, 9), (2020, 11, 1),
            (1999, 12, 31), (2000, 1, 1), (2000, 2, 29), (2000, 12, 31), (2001, 1, 1), (1900, 2, 28), (1900, 3, 1), (1900, 12, 31),
            (1969, 12, 31), (1970, 1, 1), (1970, 1, 2), (2038, 1, 19), (2038, 1, 20), (2100, 2, 28), (2100, 3, 1), (2262, 4, 11),
            (2262, 4, 12), (1677, 9, 20), (1677, 9, 21), (9999, 12, 31), (1000, 1, 1), (1582, 10, 10), (1752, 9, 2), (1752, 9, 14)]


def c06(g):
    r = g.r
    k = r.random()
    if k < 0.35:
        days = [g.day((2020, 2, 20), 12) for _ in range(r.choice([1, 2, 3, 6]))]
    elif k < 0.75:
        days = [r.choice(CRITICAL) for _ in range(r.choice([2, 4, 8]))]
        days += [nextday(d, r.choice([-1, 1, 7, -7, 29, 365, 366])) for d in days if 1000 < d[0] < 9999]
    else:
        days = [nextday(g.today, r.choice([-366, -365, -31, -7, -1, 0, 1, 1, 7, 31, 365])) for _ in range(5)]
    es = g.entries(n=r.choice([2, 5, 13, 14, 20, 40, 60]), notes=0.15, com="£", days=days)
    if g.p(0.2):
        j = g.spread(es, r.choice([1, 2, 2, 3, 5]))
    else:
        j = dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    runs = [g.run("print")] + [g.run("print", **g.options(es, 0.5, 0.8)) for _ in range(4)]
    return g.case("C06", [j], runs)


def c07(g):
    r = g.r
    es = g.entries(n=r.choice([1, 3, 6, 12, 30]), pool=g.account_pool(r.randint(2, 12), r.choice([2, 4, 6, 8, 12]), empties=g.one(0, 0, 0.2)), big=g.p(0.3), notes=0.1, zeros=g.one(0, 0, 0.4))
    j = dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    runs = [g.run("balance", zero=True), g.run("balance", zero=True, flat=True), g.run("balance"),
            g.run("balance", zero=True, **g.options(es, 0.3, 0.8)), g.run("balance", **dict(g.options(es, 0.5, 0.5), **g.layout()))]
    return g.case("C07", [j], runs)


def c08(g):
    r = g.r
    pool = g.account_pool(r.randint(2, 7), r.choice([2, 3, 5, 9]), empties=g.one(0, 0, 0.2))
    es = g.entries(n=r.choice([1, 2, 4, 8]), pool=pool, notes=0.05, zeros=0.6, big=g.p(0.2))
    com = max(p["com"] for e in es for p in e["posts"])
    if g.p(0.3):                                    # alone in its account, of any size
        q = g.one(1, r.randint(1, 9) * 2**r.choice([7, 8, 15, 16, 24, 31, 32, 33, 40, 52, 53]), 10**r.randint(1, 15), g.cents(True) or 1)
        es.append(dict(kind="txn", date=g.day(), state=" ", payee="alone", note="", notes=[],
                       posts=[dict(account="Alone" + g.one("", ":x", ":x:y"), q=q * g.one(1, -1), com=com, comments=[]),
                              dict(account=g.one("Other", r.choice(pool)), q=None, com=com, comments=[])]))
    # transfers that make inner accounts zero while their descendants are not
    for _ in range(r.choice([0, 1, 2, 3])):
        a = r.choice(pool)
        b = a + ":" + r.choice(g.NAMES[:6])
        q = g.cents()
        es.append(dict(kind="txn", date=g.day(), state=" ", payee="move", note="", notes=[],
                       posts=[dict(account=b, q=q, com=com, comments=[]),
                              dict(account=a if g.p(0.6) else b + g.one(":z", "-z", ":z:y"), q=-q, com=com, comments=[])]))
    r.shuffle(es)
    j = dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    o = g.options(es, 0.2, 0.4)
    runs = []
    for lay in ({}, {"flat": True}, {"collapse": True}):
        runs += [g.run("balance", **dict(o, **lay)), g.run("balance", zero=True, **dict(o, **lay))]
    return g.case("C08", [j], runs)


def c09(g):
    r = g.r
    names = g.one(None, None, ["x", "y", "Food", "Food-x", "food", "Foods"], ["a", "b"])
    pool = g.account_pool(r.choice([1, 2, 4, 8, 14]), r.choice([1, 2, 4, 6, 12, 20]), names=names, empties=g.one(0, 0, 0.2))
    es = g.entries(n=r.choice([1, 2, 4, 9]), pool=pool, notes=0, zeros=g.one(0, 0.3), big=g.p(0.3))
    j = dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    o = g.options(es, 0.1, 0.4)
    runs = [g.run("balance", **dict(o, **dict(lay, zero=z))) for lay in ({}, {"flat": True}, {"collapse": True}) for z in (False, True)]
    for x in runs:
        x["alias"] = g.one("balance", "bal", "b")
    return g.case("C09", [j], runs)


def c10(g):
    r = g.r
    is_told = g.p(0.6)
    if is_told:
        g.today = r.choice(g.TURNS) if g.p(0.7) else (r.randint(1900, 2150), r.randint(1, 12), r.randint(1, 28))
    base = g.today if g.p(0.5) else g.pick_base()
    days = [g.day((base[0], base[1], min(base[2], 28)), 40) for _ in range(6)]
    if g.p(0.5):
        days += [nextday(g.today, k) for k in (-2, -1, 0, 1, 2)]
    if g.p(0.3):
        y = base[0]
        days += [(y, 2, mdays(y, 2)), (y, 3, 1), (y, 1, 1), (y - 1, 12, 31), (y, 12, 31), (y + 1, 1, 1)]
    if g.p(0.3):                                    # around clock changes
        days += [(2020, 3, 29), (2020, 3, 28), (2020, 3, 30), (2020, 10, 25), (2020, 3, 8), (2020, 11, 1), (2018, 11, 4), (2020, 10, 24), (2020, 10, 26)]
    g.base = (base[0], base[1], min(28, base[2]))
    es = g.entries(n=r.choice([3, 6, 12]), notes=0.05, days=days, com="£")
    j = dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    runs = []
    for _ in range(5):
        o = {}
        if g.p(0.7):
            o["begin"] = g.date_option(0.9, es)
        if g.p(0.7):
            o["end"] = g.date_option(0.9, es)
        if g.p(0.35):
            o["current"] = True
        o["tz"] = r.choice(TZS)
        o["long"] = g.p(0.3)
        if is_told:
            o["moment"] = g.moment(g.today)
        cmd = r.choice(["print", "print", "accounts", "payees", "balance", "statistics", "budget"])
        runs.append(g.run(cmd, **o))
    return g.case("C10", [j], runs)


def c11(g):
    r = g.r
    es = g.entries(n=r.choice([2, 4, 8]), notes=0.6, com="£")
    j = dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    runs = []
    for _ in range(6):
        cmd = r.choice(["print", "balance", "balance", "statistics", "budget"])
        o = dict(args=g.filters(es, n=r.choice([1, 1, 2, 2, 3, 4])))
        if cmd == "balance":
            o.update(zero=g.p(0.7))
        if g.p(0.1):
            o["begin"] = g.date_option(1, es)
        runs.append(g.run(cmd, **o))
    return g.case("C11", [j], runs)


def c12(g):
    r = g.r
    es = g.entries(n=r.choice([1, 3, 8, 20]), notes=0.05, com="£", allocs=g.one(0, 0.2))
    j = g.spread(es, r.choice([1, 2, 2, 3, 5])) if g.p(0.2) else dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    runs = [g.run("accounts"), g.run("payees")]
    for _ in range(3):
        o = g.options(es, 0.4, 0)
        runs.append(g.run("accounts", **dict(o, args=g.filters(es, "aaapn") if g.p(0.7) else [])))
        o = g.options(es, 0.4, 0)
        ps = [a[1:] for a in g.filters(es, "p")] if g.p(0.7) else []
        runs.append(g.run("payees", **dict(o, args=ps)))
    return g.case("C12", [j], runs)


def c13(g):
    r = g.r
    if g.p(0.5):
        pool = ["Income:Work", "Income:Other", "Income", "Expenses", "Expenses:Food", "Expenses:Food:Out", "Assets:Bank", "Expenses-2", "Incomes:x", "Equity"]
        days = [nextday((2020, 1, 10), r.randint(0, 70)) for _ in range(r.choice([2, 5, 12, 25]))]
        if g.p(0.1):
            days += [g.far() for _ in range(3)]
        es = []
        for d in days:
            if g.p(0.45):
                inc = g.cents() + 1
                es.append(dict(kind="txn", date=d, state=" ", payee=g.payee(), note="", notes=[],
                               posts=[dict(account=r.choice(["Income:Work", "Income:Other", "Income"]), q=-inc, com="£", comments=[]),
                                      dict(account="Assets:Bank", q=inc, com="£", comments=[])]))
            else:
                q = g.cents() + 1
                ps = [dict(account=r.choice(["Expenses", "Expenses:Food", "Expenses:Food:Out"]), q=q, com="£", comments=[]),
                      dict(account="Assets:Bank", q=-q, com="£", comments=[])]
                if g.p(0.1):
                    ps[0]["q"], ps[1]["q"] = -q, q     # a refund
                es.append(dict(kind="txn", date=d, state=" ", payee=g.payee(), note="", notes=[], posts=ps))
        if g.p(0.3):
            es += [g.txn(pool, date=r.choice(days), com="£") for _ in range(2)]
        r.shuffle(es)
    else:
        es = g.entries(n=r.choice([1, 2, 5, 12]), notes=0.2, com="£", allocs=g.one(0, 0.1))
    j = g.spread(es, 3) if g.p(0.5) else dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    runs = [g.run("statistics", alias=g.one("", "stats")), g.run("statistics", **g.options(es, 0.8, 0)), g.run("statistics", **g.options(es, 0.3, 0.9)),
            g.run("statistics", **g.options(es, 0.5, 0.6)), g.run("statistics", args=["@zzzz"])]
    days = [e["date"] for e in es if e["kind"] == "txn"]
    for x in runs[:4]:                              # how long ago it all was
        if days and g.p(0.7):
            k = r.choice([0, 1, 2, 6, 7, 8, 13, 14, 29, 30, 31, 59, 60, 359, 360, 539, 540, 719, 720, 13319, 13320, 13321]) if g.p(0.6) else r.randint(0, 16000)
            d = r.choice(days)
            back = g.p(0.3) and d[0] > 100
            x["moment"] = g.moment(nextday(d, -k if back else k))
    return g.case("C13", [j], runs)


def c14(g):
    r = g.r
    es = g.entries(n=r.choice([2, 4, 8, 14]), notes=0.1, com="£", allocs=g.one(0, 0.1))
    for i, e in enumerate(es):
        if e["kind"] == "txn" and g.p(0.6):
            e["payee"] = "p%d" % i
    j = g.spread(es, r.choice([1, 2, 3, 4, 6]), absolute=g.p(0.3))
    k = r.random()
    fs = sorted(j["files"])
    if k < 0.12 and len(fs) > 1:                    # missing
        f = r.choice([f for f in fs if f != j["root"].replace("./", "")] or fs)
        if f != j["root"].replace("./", ""):
            j["files"].pop(f)
            if g.p(0.7) and not f.startswith("/"):      # or there, but not to be read
                j["special"] = {f: r.choice(["directory", "loop", "dangling", "unreadable", "unreadable"])}
    elif k < 0.3:                                   # something goes wrong in one of the files
        f = r.choice(fs)
        j["files"][f].insert(r.randint(0, len(j["files"][f])), r.choice(g.BADLINES + ["include " + x.split("/")[-1] for x in fs]))
    elif k < 0.4 and len(fs) > 1 and not j["root"].startswith("/"):  # a cycle
        deep = r.choice(fs)
        up = "../" * deep.count("/")
        j["files"][deep].insert(r.randint(0, len(j["files"][deep])), "include " + up + r.choice(fs))
    runs = [g.run("print"), g.run("accounts"), g.run("statistics"), g.run("payees")]
    for e in r.sample(es, min(len(es), 3)):
        if e["kind"] == "txn":
            runs.append(g.run("statistics", args=["@^" + g_escape(e["payee"]) + "$"]))
    return g.case("C14", [j], runs)


def g_escape(s):
    return "".join("\\" + c if c in "\\.+*?()|[]{}^$" else c for c in s)


def c15(g):
    r = g.r
    months = [(2020, 11), (2020, 12), (2021, 1), (2021, 2), (2019, 12)][:r.randint(1, 5)]
    if g.p(0.15):                                    # centuries apart
        months = [g.far()[:2] for _ in range(r.randint(2, 5))]
    cats = ["Food", "Food:Out", "Rent", "Car & Van", "Food:Out:Late", "Épices", "a b", "food"][:r.randint(1, 8)]
    pool = ["Expenses:" + c for c in cats] + ["Expenses", "Income:Work", "Income", "Income:Work:Bonus", "Assets:Bank", "Assets:Cash", "Equity",
                                              "Expenses-2:Food", "Incomes", "Expenses:Other:x:y"]
    com = g.one("£", "£", "$", "", "EUR ")
    es = []
    for _ in range(r.choice([1, 3, 6, 12, 25])):
        m = r.choice(months)
        if g.p(0.3):
            es.append(g.alloc(cats + ["Other"], month=m, com=com, n=0 if g.p(0.1) else None))
            continue
        t = g.txn(pool, date=(m[0], m[1], g.one(1, mdays(*m), r.randint(1, mdays(*m)))), com=com, notes=0.15, n=r.choice([2, 2, 3, 5]))
        es.append(t)
    if not any(e["kind"] == "alloc" for e in es) or g.p(0.2):
        es.append(g.alloc(cats, month=r.choice(months), com=com))
    r.shuffle(es)
    j = g.spread(es, r.choice([1, 2, 2, 3, 5])) if g.p(0.2) else dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    runs = [g.run("budget"), g.run("budget", **g.options(es, 1, 0)), g.run("budget", **g.options(es, 0.4, 0.9))]
    return g.case("C15", [j], runs)


def c16(g):
    r = g.r
    es = g.entries(n=r.choice([3, 8, 20]), notes=0.2, com="£", allocs=0.15)
    if g.p(0.4):
        months = [(2020, 1), (2020, 2), (2020, 3)]
        for e in es:
            if e["kind"] == "txn":
                m = r.choice(months)
                e["date"] = (m[0], m[1], r.randint(1, 28))
                for p in e["posts"]:
                    if g.p(0.4):
                        p["account"] = "Expenses:" + r.choice(g.NAMES)
                    elif g.p(0.2):
                        p["account"] = "Income:x"
    j = g.spread(es, r.choice([1, 2, 2, 3, 5])) if g.p(0.5) else dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    if g.p(0.1):
        f = r.choice(sorted(j["files"]))
        j["files"][f] = g.damage(j["files"][f])
    runs = []
    for cmd in COMMANDS:
        o = g.options(es, 0.3, 0.3)
        if cmd == "balance":
            o.update(g.layout())
        if cmd in ("accounts", "payees") and g.p(0.5):
            o["args"] = [g.one("o", "[a-z]", ".", "e|a", "s", "^", "x", "p|h")]
        loose = True
        runs.append(g.run(cmd, loose=loose, **o))
        first = len(runs)
        for _ in range(2):
            runs.append(g.run(cmd, loose=loose, sameAs=first, **o))
    return g.case("C16", [j], runs)


def c18(g):
    r = g.r
    es = g.entries(n=r.choice([1, 3, 6, 12]), notes=0.3, com="£", allocs=0)
    cats = ["Food", "Rent", "Zed:Sub", "Assets", "Expenses:Food", "Unique"]

    def strew():
        out = []
        for e in es:
            while g.p(0.4):
                out.append(g.alloc(cats, com=g.one("£", "£", "$", "")))
            out.append(e)
        while g.p(0.4):
            out.append(g.alloc(cats, com="£"))
        return out
    st = g.PLAIN if g.p(0.5) else g.WILD
    vs = [dict(files={"j.journal": g.text(es, st)}, root="j.journal")] + \
         [dict(files={"j.journal": g.text(strew(), st)}, root="j.journal") for _ in range(2)]
    opts = []
    for cmd in ["balance", "print", "accounts", "payees", "statistics"]:
        o = g.options(es, 0.3, 0.4)
        if cmd == "balance":
            o.update(g.layout())
        opts.append((cmd, o))
    runs = [g.run(c, **o) for c, o in opts]
    for v in (2, 3):
        runs += [g.run(c, variant=v, sameAs=i + 1, **o) for i, (c, o) in enumerate(opts)]
    if g.p(0.5):                                    # and transactions that are no business of the budget
        bs = [e for e in es] + [g.alloc(["Food", "Rent"], com="£") for _ in range(2)]
        extra = [dict(kind="txn", date=g.day(), state=" ", payee="transfer", note="", notes=[],
                      posts=[dict(account="Assets:A", q=500, com="£", comments=[]), dict(account="Liabilities:B", q=None, com="£", comments=[])])
                 for _ in range(2)]
        vs.append(dict(files={"j.journal": g.text(bs, g.PLAIN)}, root="j.journal"))
        cs = list(bs)
        for e in extra:
            cs.insert(r.randint(0, len(cs)), e)
        vs.append(dict(files={"j.journal": g.text(cs, g.PLAIN)}, root="j.journal"))
        runs.append(g.run("budget", variant=4))
        runs.append(g.run("budget", variant=5, sameAs=len(runs)))
    return g.case("C18", vs, runs)


def c19(g):
    r = g.r
    near = 0.8 if g.p(0.3) else 0.1
    is_told = g.p(0.5)
    if is_told:
        g.today = r.choice(g.TURNS)
        if near > 0.5:
            g.base = g.today
    days = [nextday(g.today, r.choice([-400, -40, -3, -1, 0, 0, 1, 2, 30, 400])) for _ in range(6)] if near > 0.5 else None
    es = g.entries(n=r.choice([2, 5, 10, 20]), notes=0.3, com="£", allocs=0.1, days=days)
    j = g.spread(es, r.choice([1, 2, 2, 3, 5])) if g.p(0.2) else dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    runs = []
    for k in range(2):
        o = g.options(es, 0.8 if k else 0, 0, tz=0.2, current=near if k else 0.1)
        f = g.filters(es) if g.p(0.5) else []
        if is_told:
            o["moment"] = g.moment(g.today)
        runs += [g.run(c, **dict(o, args=f)) for c in ("print", "balance", "statistics", "budget")]
        runs += [g.run(c, **o) for c in ("accounts", "payees")]
        runs[-5]["zero"] = True
    return g.case("C19", [j], runs)


def c20(g):
    r = g.r
    es = g.entries(n=r.choice([1, 2, 5, 10]), notes=0.4, com=g.one("£", "", "kg"), allocs=g.one(0, 0.2), big=g.p(0.2))
    for e in es:                                    # notes keep their own blanks
        if e["kind"] == "txn":
            e["note"] = e["note"].strip()
        e["notes"] = [n.strip() for n in e["notes"]]
    vs = [dict(files={"j.journal": g.text(es, g.PLAIN)}, root="j.journal")]
    for _ in range(3):
        st = dict(g.WILD)
        lines = g.text(es, st)
        vs.append(dict(files={"j.journal": lines}, root="j.journal", eol=g.one("\n", "\r\n"), noend=g.p(0.5)))
    opts = [(c, {}) for c in ("print", "accounts", "payees", "balance", "statistics", "budget")]
    opts[3] = ("balance", g.layout())
    runs = [g.run(c, **o) for c, o in opts]
    for v in (2, 3, 4):
        runs += [g.run(c, variant=v, sameAs=i + 1, **o) for i, (c, o) in enumerate(opts)]
    return g.case("C20", vs, runs)


def date_text(g):
    r = g.r
    y = r.choice([2020, 2019, 1900, 2000, 2100, 2400, 1996, 9999, 1000, 1804, 1582, 1752, r.randint(1000, 9999)])
    m = r.randint(1, 12)
    k = r.random()
    sep = r.choice("-./")
    if k < 0.5:
        d = r.choice([1, mdays(y, m), r.randint(1, mdays(y, m)), 28])
        return dtext((y, m, d), sep)
    if k < 0.6:
        return dtext((y, 2, r.choice([28, 29, 30, 31])), sep)
    if k < 0.75:
        return "%04d%s%02d%s%02d" % (y, sep, r.choice([0, 13, 4, 6, 9, 11, 99, m]), sep, r.choice([0, 31, 32, 30, 99]))
    t = dtext((y, m, 15), sep)
    i = r.randrange(len(t))
    return r.choice([t[:i] + r.choice("0123456789-./ x+٣½") + t[i + 1:], t[:i] + t[i + 1:], t[:i] + r.choice("0-/.٣9") + t[i:],
                     "%d%s%d%s%d" % (y, sep, m, sep, 5), t.replace(sep, r.choice("-./"), 1), t + "x", "%02d%s%02d%s%04d" % (5, sep, m, sep, y),
                     t[2:], "%04d%s%02d" % (y, sep, m), "%04d" % y, t + "T00:00", t.replace(sep, "", 1), t.replace(sep, ""), t + sep])


def c21(g):
    r = g.r
    lines, ok = [], True
    n = r.choice([1, 1, 2, 3])
    for i in range(n):
        d = date_text(g) if i == n - 1 or g.p(0.2) else dtext(g.day((2020, 1, 1), 400), r.choice("-./"))
        if g.p(0.15):
            d = "~ " + r.choice(["2020-02", "2020-12", "1999-01", "2020-02"])
            lines += [d, "    Food    £3", ""]
            continue
        lines += [d + g.one(" ", " ", " * ", "  ") + "payee %d" % i, "    Assets:A    £%d" % (i + 1), "    Expenses:B", ""]
    j = dict(files={"j.journal": lines}, root="j.journal")
    runs = [g.run("print"), g.run("statistics"), g.run("accounts"), g.run("print", tz=r.choice(TZS))]
    if not any(l.startswith("~") for l in lines) or True:
        runs.append(g.run("budget", tz=r.choice(TZS)))
    return g.case("C21", [j], runs)


NAMES_OF = dict(accounts=["accounts", "acc", "a"], balance=["balance", "bal", "b"], budget=["budget", "bud", "B"],
                payees=["payees", "pay", "p"], print=["print"], statistics=["statistics", "stats", "s"])
NO_PATTERN = ["a{2,1}", "(?:", "a)(b", "[z-a]", "\\y", "x{1001}", "(*)", "a|+", "(a{2}{3})", "^*+", "\\1", "[", "@[a", "=(x", "*", "@+a", "a**", "=a|*", "x)", "@a\\", "[]", "a+*", "?"]


def c22(g):
    r = g.r
    js = {}
    es = None
    for f in r.choice([["j.journal", "k.journal", "sub dir/x"], ["j.journal", "/DIR/abs.journal", "sub dir/x"]])[:r.choice([1, 2, 3])]:
        es = g.entries(n=r.choice([4, 5, 7]), notes=0.2, com="£", allocs=0.15)
        js[f] = g.text(es, g.PLAIN)
        if g.p(0.05):
            # (no damage to amounts: the reports may have but one commodity)
            js[f].insert(r.randrange(len(js[f]) + 1), r.choice([b for b in g.BADLINES if not b.startswith("    ")]))
    roots = list(js)

    def valued(o, v, before):
        s = dict(file="f", begin="b", end="e")[o]
        k = r.random()
        if k < 0.25 or v == "" and k < 0.7:
            return ["--" + o, v]
        if k < 0.5 or v == "":
            return ["--" + o + "=" + v]
        if k < 0.65:
            return ["-" + s, v]
        if k < 0.8 and v[0] != "=":
            return ["-" + s + v]
        return ["-" + s + "=" + v]

    def switch(o):
        s = dict(current="c", flatten="F", collapse="C")
        s = s.get(o, "Z")
        k = r.random()
        if k < 0.4:
            return ["-" + s], True
        if k < 0.7:
            return ["--" + o], True
        v = g.one("true", "1", "T", "false", "0", "F", "False", "TRUE")
        return [g.one("--" + o, "-" + s) + "=" + v], None

    def words():
        """(words, the journal of --file or "")"""
        cmd = r.choice(sorted(NAMES_OF))
        name = r.choice(NAMES_OF[cmd])
        pieces = []                                 # (words, may come before the command, file or None)
        for _ in range(g.one(0, 1, 1, 1, 2)):
            f = r.choice(roots * 5 + ["", "nowhere", "sub dir"])
            pieces.append((valued("file", f, True), True, f))
        for o in ("begin", "end"):
            for _ in range(g.one(0, 0, 1, 1, 2)):
                pieces.append((valued(o, g.date_option(0.95, es) if g.p(0.95) else "", True), True, None))
        while g.p(0.3):
            pieces.append((switch("current")[0], True, None))
        if cmd in ("balance", "budget"):
            while g.p(0.5):
                pieces.append((switch(g.one("flatten", "collapse", "show-zero"))[0], False, None))
            if g.p(0.3):                            # several letters in one word
                ls = r.sample("cFCZ", r.randint(2, 4))
                if g.p(0.4):
                    f = r.choice(roots)
                    pieces.append((["-" + "".join(ls) + "f" + g.one("", "=") + f] if g.p(0.6) else ["-" + "".join(ls) + "f", f], False, f))
                else:
                    pieces.append((["-" + "".join(ls)], False, None))
        if g.p(0.5):
            ps = g.filters(es)
            if cmd == "payees":
                ps = [p[1:] if p[0] in "@=" else p for p in g.filters(es, "p")]
            for p in ps:
                if not p.startswith("-"):
                    pieces.append(([p], False, None))
        if g.p(0.06):
            pieces.append(([g.one("-x", "--nope", "-cx", "--curren", "--file-name=x", "-q1", "--flattened", "---", "--=x", "-c=maybe",
                                  "--current=", "--current=2")], False, None))
        if g.p(0.05):
            pieces.append(([r.choice(NO_PATTERN)], False, None))
        if cmd not in ("balance", "budget") and g.p(0.05):
            pieces.append(([g.one("-Z", "-F", "--collapse")], False, None))
        r.shuffle(pieces)
        pre = [p for p in pieces if p[1] and g.p(0.3)]
        post = [p for p in pieces if p not in pre]
        out = [w for p in pre for w in p[0]] + ([name] if g.p(0.98) else [g.one("balanc", "Print", "prints", "bu", "st", "PAY", "P")])
        out += [w for p in post for w in p[0]]
        file = ""
        for p in pre + post:
            if p[2] is not None:
                file = p[2]
        if g.p(0.15):
            tail = g.one([], ["Food"], ["--", "x"], ["-c"], ["@z"])
            out += ["--"] + tail
        elif g.p(0.03):
            out.append(g.one("-f", "--end", "-cb", "--file"))
        return out, file

    def clash(ws):
        """cobra takes the first word equal to the command out, whatever it is; words like that are left out"""
        names = {n for q in NAMES_OF.values() for n in q}
        return sum(w in names for w in ws) > 1

    runs = []
    while len(runs) < 8:
        ws, f = words()
        if clash(ws):
            continue
        ledger = r.choice(roots * 4 + ["", "nowhere"])
        j = f or ledger
        v = roots.index(j) + 1 if j in roots else 1
        runs.append(g.run("", variant=v, argv=ws, ledger=ledger, tz=g.one("UTC", "UTC", r.choice(TZS))))
    runs.sort(key=lambda x: x["variant"])
    return g.case("C22", [dict(files=js, root=f) for f in roots], runs)


PROFILES = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11,
                C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C18=c18, C19=c19, C20=c20, C21=c21, C22=c22)


# ---- journals that are large ------------------------------------------------

def large(profile, seed, today):
    """One case beyond the sizes anything in the program is made for at first, or None."""
    g = Gen("%s-%s-large" % (profile, seed), today)
    r = g.r
    if profile not in LARGE:
        return None
    n = r.randint(2080, 2500)
    com = g.one("£", "", "$")
    if profile == "C14":                            # files in files in files, and many beside each other
        files, lines = {}, []
        for i in range(r.randint(40, 70)):
            lines.append("include wide/%d.j" % i)
            files["wide/%d.j" % i] = g.text([g.txn(["A", "B:C"], n=2, com=com, notes=0)], g.PLAIN)
        depth = r.randint(66, 110)
        for i in range(depth):
            body = g.text([g.txn(["A", "B:C"], n=2, com=com, notes=0)], g.PLAIN, last_blank=True)
            here, there = "d%d" % (i // 9), "d%d" % ((i + 1) // 9)
            d = "" if here == there else "../%s/" % there
            files["%s/%d" % (here, i)] = body[:r.randint(0, 1) * len(body)] + ["include %s%d" % (d, i + 1)] * (i < depth - 1) \
                + ([""] + body if g.p(0.5) else [])
        files["j.journal"] = lines + ["include d0/0", ""] + g.text([g.txn(["A", "B:C"], n=2, com=com, notes=0)], g.PLAIN)
        return g.case("C14", [dict(files=files, root="j.journal")], [g.run("print"), g.run("statistics")])
    if profile in ("C07", "C09"):                   # many brothers, many generations
        deep = ["D"] + [g.one("x", "y") for _ in range(r.randint(20, 40))]
        pool = ["A:%s%d" % (r.choice("abcB-"), i) for i in range(r.randint(100, 200))] \
            + [":".join(deep[:i]) for i in range(1, len(deep) + 1)] + ["E:" + ":".join(deep[:9])]
        n = 300
        if profile == "C07":                        # and many postings in one account
            n, pool = r.randint(450, 500), ["A"] * 4 + [g.one("A:B", "A:x y:C"), g.one("C", "C:D")]
    elif profile == "C15":
        pool = ["Expenses:Food", "Expenses:Rent:x", "Income:Work", "Assets", "Expenses"] + ["Expenses:c%d" % i for i in range(40)]
        n = 400
    elif profile == "C13":
        pool = ["Expenses:Food", "Income:Work", "Assets", "Expenses"] + ["Assets:%d" % i for i in range(300)]
    elif profile == "C12":
        pool = ["%s:%d" % (r.choice("ABab"), i) for i in range(800)]
    else:
        pool = ["A:B", "C", "Expenses:Food"]
    days = [g.day((2020, 2, 20), 12) for _ in range(8)] if profile != "C13" else [nextday((2019, 3, 1), 2 * i) for i in range(60)]
    es = []
    for i in range(n):
        t = g.txn(pool, date=r.choice(days), n=8 if profile == "C07" else 2, com=com, notes=0.02, elide=0.3)
        if profile == "C12":
            t["payee"] = "%s %d" % (r.choice(["Shop", "shop", "Bus"]), r.randint(0, 900))
        es.append(t)
        if profile == "C15" and i % 10 == 0:
            es.append(g.alloc(["Food", "Rent", "c%d" % (i // 10)], month=t["date"][:2], com=com))
    ends = dict(begin=dtext(days[0]), end=dtext(nextday(max(days))))
    runs = dict(C03=[("print", {})], C06=[("print", {}), ("print", dict(args=["^C"], **ends))], C07=[("balance", dict(zero=True))],
                C09=[("balance", {}), ("balance", dict(collapse=True)), ("balance", dict(flat=True))],
                C12=[("accounts", {}), ("payees", {}), ("payees", dict(args=["^s"]))],
                C13=[("statistics", {}), ("statistics", dict(args=["^assets"]))], C15=[("budget", {})],
                C19=[("print", {}), ("statistics", {}), ("balance", dict(zero=True))])[profile]
    j = dict(files={"j.journal": g.text(es, g.PLAIN)}, root="j.journal")
    return g.case(profile, [j], [g.run(c, **o) for c, o in runs])


LARGE = ("C03", "C06", "C07", "C09", "C12", "C13", "C14", "C15", "C19")


def large_case(profile, seed, today):
    for i in range(20):
        c = large(profile, "%s.%d" % (seed, i), today)
        if c is None:
            return []
        for v in c["variants"]:
            v["files"] = {f: ["".join(ch for ch in l if ch in ALPHABET) for l in ls] for f, ls in v["files"].items()}
        if usable(c):
            c["id"] = "%s-%s-large" % (profile, seed)
            return [c]
    return []


def c24(g):
    """A case for harness/parse: a journal and plans of reading it."""
    r = g.r
    es = g.entries(n=r.choice([1, 2, 4, 8, 14]), com=g.one("£", ""), allocs=g.one(0, 0.15, 0.5), notes=g.one(0.1, 0.5), big=g.p(0.2))
    k = r.random()
    if k < 0.4:
        j = g.spread(es, r.choice([1, 2, 3]))
    else:
        j = dict(files={"j.journal": g.text(es, g.style())}, root="j.journal")
    fs = sorted(j["files"])
    if g.p(0.3):
        f = r.choice(fs)
        j["files"][f] = g.damage(j["files"][f])
    if g.p(0.05) and len(fs) > 1:
        f = r.choice(fs)
        if f != j["root"].replace("./", ""):
            j["files"].pop(f)
    root = j["files"][j["root"].replace("./", "")]
    if g.p(0.15) and root:                              # a line longer than buffers are
        i = r.randrange(len(root))
        if root[i].startswith("  ") or root[i].startswith(";") or root[i] == "":
            root.insert(i, "    ; " + r.choice(["x", "é", "x y "]) * r.choice([1000, 2045, 4090, 4091, 5000, 9000]))
    noend = bool(root) and g.p(0.3)
    n = len(root)
    plans = [dict(given=["transaction", "allocation"], refuse=0, cut=-1)]
    for _ in range(r.randint(2, 5)):
        given = r.choice([["transaction", "allocation"]] * 3 + [["transaction"], ["allocation"], []])
        plans.append(dict(given=given, refuse=r.choice([0, 1, 1, 2, 3, r.randint(1, len(es) + 1)]), cut=-1))
    for _ in range(r.randint(2, 5)):
        last = n - 1 if noend else n
        plans.append(dict(given=r.choice([["transaction", "allocation"]] * 4 + [["transaction"]]),
                          refuse=r.choice([0, 0, 0, r.randint(1, 4)]), cut=r.choice([last, r.randint(0, last), r.randint(0, last)])))
    return dict(files=j["files"], root=j["root"], eol=g.one("\n", "\n", "\r\n"), noend=noend, plans=plans)


def parse_cases(seed, n, today):
    ok = set(ALPHABET)
    out, i = [], 0
    while len(out) < n:
        c = c24(Gen("C24-%s-%d" % (seed, i), today))
        if not any(set(l) - ok for ls in c["files"].values() for l in ls) and not any(set(f) - ok for f in c["files"]):
            c["id"] = "C24-%s-%d" % (seed, i)
            out.append(c)
        i += 1
    return out


def usable(c):
    """Keep within the model's alphabet."""
    ok = set(ALPHABET)
    for v in c["variants"]:
        for p, lines in v["files"].items():
            if any(set(l) - ok or "\r" in l for l in lines) or set(p) - ok:
                return False
    for x in c["runs"]:
        for a in x["args"] + [x["begin"], x["end"]] + x.get("argv", []):
            if set(a) - ok or a.startswith("//"):
                return False
    return True


def cases(profile, seed, n, today):
    out = []
    i = 0
    while len(out) < n:
        g = Gen("%s-%s-%d" % (profile, seed, i), today)
        c = PROFILES[profile](g)
        if usable(c):
            c["id"] = "%s-%s-%d" % (profile, seed, i)
            out.append(c)
        i += 1
    return out


if __name__ == "__main__":
    import json
    import sys
    for c in cases(sys.argv[1], sys.argv[2], int(sys.argv[3]), (2026, 11, 19)):
        print(json.dumps(c, ensure_ascii=False))
