"""Random Kuneiform sources for the trace checks.

A source is drawn as a document (names, lists, statements), possibly damaged by
mutations that each plant one fault of a certain kind, written down as tokens and then
laid out.  Whether a document is valid is not decided here: the specification reads the
text.  A theme (a property) makes what the property is about more frequent and larger."""
import random
import re
import string

RESERVED = {"database", "use", "as", "table", "action", "init", "public", "private", "view", "owner", "int",
            "text", "blob", "min", "max", "minlen", "maxlen", "notnull", "primary", "default", "unique", "index",
            "foreign_key", "fk", "references", "ref", "on_update", "on_delete", "do", "no_action", "cascade",
            "set_null", "set_default", "restrict", "not", "and", "or"}
SQLWORDS = {"select", "insert", "update", "delete", "with"}
NAMES = ["a", "b", "c", "A", "id", "name", "t1", "users", "Users", "x_1", "z9_", "fk1", "init1", "selects", "Int", "owner_", "k", "v"]
STRS = ["''", "'a'", "'b c'", "'it\\'s'", "'\\\\'", "'//'", "'/*'", "'a;b'", "'x,y=1'", "'(q)'", "'}'", "'\u00e9'", "'\U0001f600'", "'\"'", "'$v'", "'@c'", "'\\n'",
        "'a // b'", "'/* c */'", "' x  y '", "'a\tb'", "'1'", "'null'", "'it\\\\'", "'{a: 1}'", "'#i'", "'(a=\\'b\\')'", "'\u65e5\u672c'", "'select 1;'",
        "'%s'", "'a=b'", "'a,b'", "'\\\\\\''"]
NUMS = ["0", "1", "2", "10", "007", "00", "64", "255", "1000000", "9223372036854775807", "9223372036854775808", "99999999999999999999"]
TYPES = ["int", "text", "blob"]
FLAGS = ["primary", "notnull", "unique"]
NUMERIC = ["min", "max", "minlen", "maxlen"]
KINDS = FLAGS + ["default"] + NUMERIC
REACTIONS = ["no_action", "cascade", "set_null", "set_default", "restrict"]
FORBIDDEN = ["random()", "sqrt(1)", "date('now')", "last_insert_rowid()", "changes()", "sin(1)", "unixepoch('now')", "total_changes()", "pi()",
             "randomblob(4)", "strftime('%s', 'now')", "ceil(1)", "pow(1, 2)", "exp(id)"]


class Sql:
    """Statements of the SQL dialect, mostly valid.  The library says which are."""

    def __init__(self, rng):
        self.r = rng

    def kw(self, w):
        return self.up(w) if self.upper else w

    def up(self, w):
        return w.upper()

    def pick(self, *xs):
        return self.r.choice(xs)

    def tab(self):
        return self.pick("users", "posts", "t1", "\"users\"", "tags")

    def col(self):
        return self.pick("id", "name", "age", "\"id\"", "c1", "owner_")

    def expr(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.4:
            return r.choice(["1", "'a'", "$x", "@caller", "null", "true", "'it''s'", "'a // b'", "'/* c */'", "'x, y'", "'(a'", "'a  b'", "'a\tb'", "42", self.col(), self.col()])
        if c < 0.55:
            return self.expr(d - 1) + " " + r.choice(["+", "-", "*", "/", "%", "=", "!=", "<", "<=", ">", ">=", "<>"]) + " " + self.expr(d - 1)
        if c < 0.65:
            return "(" + self.expr(d - 1) + ")"
        if c < 0.78:
            return r.choice(["abs", "lower", "upper", "length", "ABS"]) + "(" + self.expr(d - 1) + ")"
        if c < 0.82:
            return "format('%s', " + self.expr(d - 1) + ")"
        if c < 0.86:
            return self.expr(d - 1) + " " + self.kw(r.choice(["and", "or"])) + " " + self.expr(d - 1)
        if c < 0.9:
            return self.kw("case when ") + self.expr(d - 1) + self.kw(" then ") + self.expr(d - 1) + self.kw(" else ") + self.expr(d - 1) + self.kw(" end")
        if c < 0.94:
            return "(" + self.kw("select ") + self.expr(d - 1) + ")"
        if c < 0.97:
            return self.col() + self.kw(r.choice([" is null", " is not null", " in (1, 2)", " not in (1, $x)", " like '%a%'", " between 1 and 3"]))
        return self.col() + self.kw(" in (select ") + self.col() + self.kw(" from ") + self.tab() + ")"

    def where(self, d):
        return self.kw(" where ") + self.expr(d) if self.r.random() < 0.6 else ""

    def select(self, d):
        r, k = self.r, self.kw
        s = k("select ") + (k("distinct ") if r.random() < 0.1 else "")
        cols = r.choice([["*"], [self.expr(d)], [self.expr(d) for _ in range(r.choice([2, 3, 8]))], [k("count(*)")], ["u.id", "u.*"]])
        if cols[0] == "u.id":
            s += ", ".join(cols) + k(" from users as u")
            if r.random() < 0.6:
                s += k(r.choice([" join ", " inner join ", " left join "])) + k("posts as p on ") + "u.id = p.uid"
            return s + (k(" where ") + "u.id = $x" if r.random() < 0.5 else "")
        s += ", ".join(cols)
        if cols == ["*"] or r.random() < 0.8:
            s += k(" from ") + self.tab() + self.where(d)
            if r.random() < 0.15:
                s += k(" group by ") + self.col() + (k(" having count(*) > 1") if r.random() < 0.5 else "")
            if r.random() < 0.1 and d > 0:
                s += k(r.choice([" union ", " union all ", " intersect ", " except "])) + k("select ") + self.col() + k(" from ") + self.tab()
            if r.random() < 0.2:
                s += k(" order by ") + self.col() + k(r.choice(["", " desc", " asc"]))
            if r.random() < 0.2:
                s += k(" limit ") + r.choice(["1", "$x", "10"]) + (k(" offset ") + "5" if r.random() < 0.3 else "")
        return s

    def statement(self, faulty=False):
        r, k = self.r, self.kw
        self.upper = r.random() < 0.25
        d = r.choice([0, 1, 1, 2, 3])
        c = r.random()
        if c < 0.5:
            s = self.select(d)
        elif c < 0.68:
            n = r.choice([1, 2, 2, 6])
            s = k("insert into ") + self.tab()
            if r.random() < 0.8:
                s += " (" + ", ".join(["id", "name", "age", "c1", "c2", "c3"][:n]) + ")"
            s += k(" values ") + ", ".join("(" + ", ".join(self.expr(d - 1) for _ in range(n)) + ")" for _ in range(r.choice([1, 1, 2, 3])))
            if r.random() < 0.2:
                s += k(" on conflict do nothing") if r.random() < 0.4 else k(" on conflict (id) do update set name = ") + self.expr(1)
            if r.random() < 0.1:
                s += k(" returning *")
        elif c < 0.83:
            s = k("update ") + self.tab() + k(" set ") + ", ".join(self.col() + " = " + self.expr(d) for _ in range(r.choice([1, 1, 2, 4]))) + self.where(d)
        elif c < 0.94:
            s = k("delete from ") + self.tab() + self.where(d)
        else:
            s = k("with ") + "q" + k(" as (") + self.select(d - 1) + ") " + r.choice([k("select * from ") + "q", k("delete from ") + self.tab()])
        if r.random() < 0.3:
            w, rest = s.split(" ", 1)
            s = r.choice([w.capitalize(), w.upper(), "".join(x.upper() if r.random() < 0.5 else x for x in w)]) + " " + rest
        if faulty:
            s = self.spoil(s)
        if r.random() < 0.25:     # layout inside the text belongs to it
            ws = s.split(" ")
            s = ws[0] + " " + r.choice([" ", "\n", "\t", "\r\n", " /* c */ ", "  "]).join(ws[1:]) if r.random() < 0.3 else \
                ws[0] + "".join(r.choice([" ", " ", " ", "\n", "\t", "\r\n  ", " /* a, b */ "]) + x if "'" not in s else " " + x for x in ws[1:])
        return s.replace(";", ",").replace("}", ")")

    def spoil(self, s):
        r = self.r
        c = r.random()
        if c < 0.45:
            for old in r.sample(["1", "'a'", "$x", "id", "name"], 5):
                i = s.rfind(old) if r.random() < 0.7 else s.find(old)
                if i > 0:
                    return s[:i] + r.choice(FORBIDDEN) + s[i + len(old):]
            return "select " + r.choice(FORBIDDEN)
        if c < 0.65:
            for old in (" from users", " from posts", " from t1", " from tags"):
                if old in s:
                    return s.replace(old, old + r.choice([", posts", " cross join posts", " natural join posts", " join posts", " join posts on true", " as u join posts as p on u.id > p.id"]), 1)
            return "select * from users, posts"
        ws = s.split(" ")
        if c < 0.85 and len(ws) > 3:
            del ws[r.randrange(1, len(ws))]
        else:
            ws.insert(r.randrange(1, len(ws) + 1), r.choice(["select", "foo(1)", ",", "1.5", "(", ")", "from", "where"]))
        return " ".join(ws)


GOOD_SQL = ["select 1", "select * from users", "SELECT * FROM users", "select id, name as n from users as u",
            "insert into users (id, name) values (1, $x)", "update users set name = $n where id = $id",
            "delete from users where id = 1", "select id from users where id = $x", "Select id FROM users",
            "select id from users where id = abs(id)", "insert into users (id, name) values (1, 'a')",
            "select abs(id)", "select id, lower('A') from users", "delete from users where id = @caller",
            "select \"id\" from \"users\"", "select\n  id\n  from\tusers",
            "select count(*) from users", "select id from users order by id desc, name asc limit 10 offset 5"]
BAD_SQL = ["select random()", "select * from users, posts", "select sqrt(1)", "delete from users where id = last_insert_rowid()",
           "update users set", "select * from users cross join posts", "select date('now')", "insert into users",
           "select id from users where random() = 1", "select * from users join posts on true", "select abs()",
           "insert into users (id) values (random())", "update users set id = random()", "delete from users where id in (select sqrt(1))"]


class Hints:
    """Constants of the code under test: sizes and texts that may matter to it."""

    def __init__(self):
        self.sizes, self.texts, self.idents = [], [], []

    def learn(self, ints, strs):
        self.sizes = sorted(set(self.sizes) | {i + k for i in ints if 3 <= i <= 70000 and i != 420 for k in (-1, 0, 1, 2)})
        new = {t for t in strs if t and len(t) < 60}
        self.texts = sorted(set(self.texts) | new)
        import re
        self.idents = sorted(set(self.idents) | {w for t in new for w in re.findall(r"[A-Za-z][A-Za-z0-9_]*", t) if len(w) < 30 and t.count(" ") < 2})

    def size(self, r, most):
        q = [x for x in self.sizes if x <= most]
        return r.choice(q) if q else None

    def ident(self, r):
        if not self.idents:
            return None
        w = r.choice(self.idents)
        c = r.random()
        if c < 0.5:
            return w
        return r.choice([w + r.choice(["_", "x", "1", "_a", "s"]), r.choice(["a", "x_", "my"]) + w, w.upper(), w.capitalize(), w.lower(), w + w])

    def text(self, r):
        if not self.texts:
            return None
        t = r.choice(self.texts)
        return r.choice([t, t, t + t, "a" + t, t + "b", "a " + t + " b", t.upper()])


HINTS = Hints()


WORDS = sorted(RESERVED | SQLWORDS | {"null", "caller", "all", "key", "true", "trace", "d"})
DOMAIN = ["users", "user_id", "wallet", "balance", "created_at", "title", "content", "author_id", "posts", "get_user", "create_post", "list_posts", "amount",
          "block_num", "email", "profile", "likes", "comments", "post_id", "username", "log", "data", "value", "type", "status"]


class Names:
    """A way of naming things, the same for a whole document."""

    def __init__(self, rng):
        self.r = rng
        self.style = rng.choice(["pool", "pool", "pool", "counted", "prefix", "case", "long", "tiny", "words", "words", "alike"])
        self.long = rng.choice("kLmN") * rng.choice([7, 15, 19, 29, 30, 31, 49, 62, 63, 64, 127, 255])
        self.stem = rng.choice(["n", "col", "item", "x"])

    def draw(self):
        r = self.r
        if HINTS.idents and r.random() < 0.06:
            return HINTS.ident(r)
        if HINTS.sizes and r.random() < 0.02:
            n = HINTS.size(r, 600)
            if n:
                return r.choice(["n", "N", "x_"])[:n] + r.choice("ab1") * (n - 2) + r.choice("xy")
        if self.style == "words" or r.random() < 0.04:      # made from the words of the language
            w = r.choice(WORDS)
            return r.choice([w + r.choice(["_", "s", "1", "x", "_list", "_by_id", "_all"]), w.capitalize(), w.upper(), r.choice(["my_", "is_", "x", "re"]) + w,
                             w + "_" + r.choice(WORDS), r.choice(DOMAIN), r.choice(DOMAIN) + "_" + w])
        if self.style == "pool":
            return r.choice(NAMES)
        if self.style == "counted":
            return self.stem + str(r.randint(0, 60))
        if self.style == "prefix":
            return "user" + r.choice(["", "s", "_", "_s", "_id", "1", "10", "ss", "s1"]) + r.choice(["", "", "x", "2"])
        if self.style == "case":
            return "".join(r.choice([c, c.upper()]) for c in r.choice(["ab", "id", "name", "abc"]))
        if self.style == "alike":       # equal for long
            return self.long + r.choice(["a", "b", "c", "A", "aa", "ab", "", "1", "2", "_"])
        if self.style == "long":
            return r.choice("abcXYZ") + "".join(r.choice(string.ascii_letters + string.digits + "_") for _ in range(r.choice([20, 40, 63, 64, 65, 130])))
        return r.choice("abcdAB")

    def fresh(self, used):
        for _ in range(40):
            x = self.draw()
            if x not in used and x not in RESERVED and x.lower() not in SQLWORDS:
                used.append(x)
                return x
        while True:
            x = self.draw() + str(self.r.randint(0, 9999))
            if x not in used:
                used.append(x)
                return x


class Doc:
    pass


class G:
    """Draws documents."""

    def __init__(self, rng, theme="", big=1.0, sqls=()):
        self.r, self.theme, self.big = rng, theme, big
        self.sql = Sql(rng)
        self.sqls = list(sqls)
        self.names = Names(rng)
        self.hinted = 0

    def size(self, lo, usual, large, *themes):
        """Mostly usual, sometimes large; larger if the theme is among themes."""
        r = self.r
        if HINTS.sizes and self.hinted < 2 and r.random() < (0.08 if self.theme in themes else 0.02):
            n = HINTS.size(r, 140 if self.hinted == 0 else 24)
            if n:
                self.hinted += 1
                return max(lo, n)
        if r.random() < (0.22 if self.theme in themes else 0.04):
            return r.randint(lo, max(lo, round(large * (1 if self.theme in themes else 0.4) * self.big)))
        return r.randint(lo, max(lo, usual + (1 if self.theme in themes else 0)))

    def share(self, p, q, *themes):
        return self.r.random() < (q if self.theme in themes else p)

    def lit(self):
        r = self.r
        c = r.random()
        if HINTS.texts and r.random() < 0.05:
            return "'" + HINTS.text(r).replace("\\", "\\\\").replace("'", "\\'") + "'"
        if HINTS.sizes and r.random() < 0.03:
            n = HINTS.size(r, 6000)
            return r.choice([str(n), str(n), "'" + str(n) + "'", "'" + r.choice("vw ") * n + "'", "1" * min(n, 300), "0" * min(n, 40) + "1"])
        if c < 0.04:
            return "'" + "".join(r.choice(string.ascii_letters + " ,;()=/*-\"{}$@#:.%") for _ in range(r.choice([30, 100, 300]))) + "'"
        if c < 0.07:
            return "".join(r.choice("0123456789") for _ in range(r.choice([15, 20, 40])))
        return r.choice(STRS) if c < 0.62 else r.choice(NUMS)

    def num(self):
        if HINTS.sizes and self.r.random() < 0.1:
            return str(self.r.choice(HINTS.sizes))
        return self.r.choice(NUMS) if self.r.random() < 0.9 else str(self.r.randint(0, 10 ** self.r.choice([2, 6, 18, 30])))

    def document(self):
        r = self.r
        d = Doc()
        d.name = r.choice(NAMES)
        d.exts, al = [], []
        for _ in range(self.size(0, 2, 12, "C05", "C11") if self.share(0.6, 0.95, "C05", "C11", "C12") else 0):
            cfg = [[self.names.draw() if r.random() < 0.8 else "cfg", self.lit()] for _ in range(self.size(0, 2, 14, "C05"))]
            if self.theme == "C05" and cfg and r.random() < 0.3:
                cfg.append([r.choice(cfg)[0], self.lit()])
            d.exts.append(dict(name=r.choice([self.names.draw(), "ext"] + [e["name"] for e in d.exts]), cfg=cfg, alias=self.names.fresh(al)))
        for e in d.exts:
            e["name"] = e["name"] if e["name"] not in RESERVED else "ext"
        tabs, used = [], []
        ncols = []
        for _ in range(self.size(0, 2, 14, "C01", "C02", "C07", "C08", "C09")):
            cu = []
            k = self.size(1, 4, 30, "C01", "C08", "C10") if r.random() < 0.8 or not ncols else 0
            cols = [self.names.fresh(cu) for _ in range(k)] if k else list(r.choice(ncols))    # the same columns as another table
            ncols.append(cols)
            tabs.append(dict(name=self.names.fresh(used), colnames=list(cols)))
        d.tables = tabs
        for t in tabs:
            self.table(t, tabs)
        d.actions, used = [], []
        for _ in range(self.size(0, 3, 16, "C03", "C04", "C07", "C08", "C11", "C13")):
            pu = []
            d.actions.append(dict(name=self.names.fresh(used), params=["$" + self.names.fresh(pu) for _ in range(self.size(0, 2, 20, "C03", "C08", "C12"))]))
        for a in d.actions:
            self.action(a, d)
        d.inits = [self.body([], d)] if self.share(0.35, 0.7, "C07", "C04", "C12") else []
        d.order = [("t", i) for i in range(len(d.tables))] + [("a", i) for i in range(len(d.actions))] + [("i", i) for i in range(len(d.inits))]
        r.shuffle(d.order)
        # the order within a kind stays
        for k in "ta":
            xs = iter(sorted(i for kk, i in d.order if kk == k))
            d.order = [(kk, next(xs) if kk == k else i) for kk, i in d.order]
        return d

    def attrs(self, ty):
        r = self.r
        kinds = [k for k in KINDS if not (ty == "int" and k in ("minlen", "maxlen") or ty == "text" and k in ("min", "max"))]
        ks = r.sample(kinds, min(len(kinds), r.choice([0, 0, 1, 2, 3, 5, 8]) if self.theme in ("C01", "C10", "C08") else r.choice([0, 0, 0, 1, 1, 2])))
        return [[k, self.lit() if k == "default" else self.num() if k in NUMERIC else None] for k in ks]

    def table(self, t, tabs):
        r = self.r
        cols = t["colnames"]
        items = []
        for c in cols:
            ty = r.choice(TYPES)
            items.append(dict(k="col", name=c, type=ty, attrs=self.attrs(ty)))
        iu = list(cols)
        lists = []

        def cl(xs):
            c = r.random()
            if lists and c < 0.25:
                q = [x for x in r.choice(lists) if x in xs]
                if q:
                    return q
            n = self.size(1, 2, 10, "C02", "C09")
            q = [r.choice(xs) for _ in range(n)] if c < 0.7 else r.sample(xs, min(n, len(xs)))
            lists.append(q)
            return q
        for _ in range(self.size(0, 2, 12, "C02", "C09", "C13", "C08") if self.share(0.5, 0.9, "C02", "C09", "C13") else 0):
            if r.random() < (0.25 if self.theme == "C13" else 0.5):
                items.append(dict(k="idx", name=self.names.fresh(iu), type=r.choice(["index", "unique", "primary"]), cols=cl(cols)))
            else:
                p = r.choice(tabs)
                ev = r.sample(["on_update", "on_delete"], r.choice([0, 1, 2]))
                items.append(dict(k="fk", kw=r.choice(["fk", "foreign_key"]), child=cl(cols), ref=r.choice(["ref", "references"]), ptable=p["name"],
                                  parent=cl(p["colnames"]), acts=[[e, r.random() < 0.5, r.choice(REACTIONS)] for e in ev]))
        t["items"], t["comma"] = items, r.random() < 0.2

    def action(self, a, d):
        r = self.r
        a["anns"] = [[r.choice(["kgw", "x", "Ann_1", "a"]), [[self.names.draw(), self.lit()] for _ in range(self.size(1, 2, 12, "C06"))]]
                     for _ in range(self.size(0, 1, 8, "C06") if self.share(0.3, 0.9, "C06") else 0)]
        if len(a["anns"]) > 1 and r.random() < 0.2:
            a["anns"].append(a["anns"][0])
        for n in a["anns"]:
            for x in n[1]:
                if x[0] in RESERVED:
                    x[0] = "q"
        a["mods"] = r.sample(["public" if r.random() < 0.6 else "private", "view", "owner"], r.choice([0, 1, 1, 2, 3]))
        a["stmts"] = self.body(a["params"], d)

    def body(self, params, d):
        r = self.r
        out, known = [], list(params)
        for _ in range(self.size(1, 3, 16, "C04", "C11", "C12", "C14")):
            c = r.random()
            if out and c < 0.08:
                out.append(r.choice(out))         # the same again
                continue
            call = {"C14": 0.75, "C11": 0.2, "C12": 0.15, "C04": 0.4}.get(self.theme, 0.5)
            if c < call or not d.actions and not d.exts:
                s = r.choice(GOOD_SQL) if r.random() < 0.5 or not self.sqls else r.choice(self.sqls)
                if r.random() < (0.04 if HINTS.sizes else 0.02):
                    s = stretch(s, r)
                out.append(dict(k="sql", text=s))
                continue
            recv, ext = [], None
            if d.exts and (r.random() < 0.6 or not d.actions):
                ext, fn = r.choice(d.exts)["alias"], self.names.draw()
                fn = fn if fn not in RESERVED else "f"
                if r.random() < 0.6:
                    recv = list(dict.fromkeys("$" + self.names.draw() for _ in range(self.size(1, 2, 8, "C12", "C04"))))
                    recv = [x for x in recv if x[1:] not in RESERVED] or ["$r"]
            else:
                fn = r.choice(d.actions)["name"]
            args = [self.expr(known, r.choice([0, 1, 2, 3, 5 if self.theme in ("C04", "C12") else 3])) for _ in range(self.size(0, 2, 8, "C04", "C11", "C12"))]
            out.append(dict(k="call", recv=recv, ext=ext, fn=fn, args=args))
            if ext:
                known = known + recv
        return out

    def expr(self, known, d):
        """A nested list of tokens; [x] with x a variable stays a place mutations can find."""
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.35:
            k = r.random()
            if k < 0.55 and known:
                return [r.choice(known)]
            if k < 0.65:
                return ["@caller"]
            return [self.lit()]
        if c < 0.5:
            return [r.choice(["not", "-", "+"]), self.expr(known, d - 1)]
        if c < 0.72:
            return [self.expr(known, d - 1), r.choice(["and", "or", "+", "-", "*", "/", "%", "<", "<=", ">", ">=", "=", "!=", "<>"]), self.expr(known, d - 1)]
        if c < 0.85:
            return ["(", self.expr(known, d - 1), ")"]
        f = r.choice(["abs", "lower", "UPPER", "length", "format", "Abs"])
        return [f, "(", clist([self.expr(known, d - 1) for _ in range(r.choice([1, 1, 2, 3]))]), ")"]


def clist(xs, sep=","):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out += x if isinstance(x, list) else [x]
    return out


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


# ---------------------------------------------------------------- mutations: one fault each
def leaves(e, test, out):
    for i, x in enumerate(e):
        if isinstance(x, list):
            leaves(x, test, out)
        elif test(x):
            out.append((e, i))
    return out


def bodies(d):
    return [(a["stmts"], a["params"]) for a in d.actions] + [(s, []) for s in d.inits]


def calls(d):
    return [(b, i) for b, _ in bodies(d) for i, s in enumerate(b) if s["k"] == "call"]


def recopy(d):
    """No statement or column list is shared any more."""
    import copy
    for k in ("exts", "tables", "actions", "inits"):
        v = copy.deepcopy(getattr(d, k))
        setattr(d, k, v)
    for a in d.actions:
        a["stmts"] = [copy.deepcopy(s) for s in a["stmts"]]
    d.inits = [[copy.deepcopy(s) for s in b] for b in d.inits]


def other_case(x, r):
    y = "".join(c.upper() if c.islower() else c.lower() for c in x) if r.random() < 0.5 else x[0].swapcase() + x[1:]
    return y


def mut_second_init(d, r, g):
    d.inits.append(r.choice([d.inits[0] if d.inits else None, [dict(k="sql", text="select 1")], g.body([], d)]) or [dict(k="sql", text="select 1")])
    while len(d.inits) < 2:
        d.inits.append([dict(k="sql", text="select 1")])
    seen = sum(1 for k, _ in d.order if k == "i")
    for i in range(seen, len(d.inits)):
        d.order.insert(r.randint(0, len(d.order)), ("i", i))


def two(xs, r):
    return r.sample(range(len(xs)), 2) if len(xs) > 1 else None


def mut_dup(d, r, g):
    cases = []
    if len(d.exts) > 1:
        cases.append("ext")
    if len(d.tables) > 1:
        cases.append("table")
    if len(d.actions) > 1:
        cases.append("action")
    cases += ["param"] * any(a["params"] for a in d.actions)
    tabs = [t for t in d.tables if len(t["colnames"]) > 1]
    cases += ["column"] * bool(tabs)
    withidx = [t for t in d.tables if any(x["k"] == "idx" for x in t["items"])]
    cases += ["idx", "idxcol"] * bool(d.tables)
    cases += ["attr"] * bool(d.tables)
    if not cases:
        return
    c = r.choice(cases)
    case = r.random() < 0.2
    twist = (lambda x: other_case(x, r)) if case else (lambda x: x)
    if c in ("ext", "table", "action"):
        xs = {"ext": d.exts, "table": d.tables, "action": d.actions}[c]
        i, j = two(xs, r)
        f = "alias" if c == "ext" else "name"
        xs[i][f] = twist(xs[j][f])
    elif c == "param":
        a = r.choice([a for a in d.actions if a["params"]])
        p = r.choice(a["params"])
        a["params"].insert(r.randint(0, len(a["params"])), "$" + twist(p[1:]))
    elif c == "column":
        t = r.choice(tabs)
        cs = [x for x in t["items"] if x["k"] == "col"]
        i, j = two(cs, r)
        cs[i]["name"] = twist(cs[j]["name"])
    elif c in ("idx", "idxcol"):
        t = r.choice(withidx or d.tables)
        ix = [x for x in t["items"] if x["k"] == "idx"]
        n = r.choice(ix)["name"] if c == "idx" and ix else r.choice(t["colnames"])
        if c == "idxcol" and ix and r.random() < 0.6:
            r.choice(ix)["name"] = twist(n)
        else:
            t["items"].insert(r.randint(1, len(t["items"])), dict(k="idx", name=twist(n), type=r.choice(["index", "unique", "primary"]), cols=[r.choice(t["colnames"])]))
    else:
        t = r.choice(d.tables)
        col = r.choice([x for x in t["items"] if x["k"] == "col"])
        if not col["attrs"]:
            col["attrs"] = [["notnull", None]]
        k = r.choice(col["attrs"])
        v = g.lit() if k[0] == "default" else g.num() if k[0] in NUMERIC else None
        col["attrs"].insert(r.randint(0, len(col["attrs"])), [k[0], v])


def mut_ref(d, r, g):
    spots = [(t, x) for t in d.tables for x in t["items"] if x["k"] != "col"]
    if not spots:
        if not d.tables:
            return
        t = r.choice(d.tables)
        x = dict(k="idx", name="zz_idx", type="index", cols=[t["colnames"][0]])
        t["items"].append(x)
        spots = [(t, x)]
    t, x = r.choice(spots)
    wrong = ["nope", t["name"]] + [y["name"] for y in t["items"] if y["k"] == "idx"] * 2
    wrong += [c for u in d.tables for c in u["colnames"]] + [other_case(r.choice(t["colnames"]), r)]
    if x["k"] == "idx":
        x["cols"][r.randrange(len(x["cols"]))] = r.choice(wrong)
    else:
        w = r.choice(["child", "child", "parent", "parent", "ptable"])
        if w == "ptable":
            x["ptable"] = r.choice(["nope", other_case(x["ptable"], r)] + [a["name"] for a in d.actions] + [e["alias"] for e in d.exts] + [u["name"] for u in d.tables])
        else:
            pt = [u for u in d.tables if u["name"] == x["ptable"]]
            wrong += [y["name"] for u in pt for y in u["items"] if y["k"] == "idx"] * 2
            x[w][r.randrange(len(x[w]))] = r.choice(wrong)


def mut_attr(d, r, g):
    cols = [x for t in d.tables for x in t["items"] if x["k"] == "col"]
    if not cols:
        return
    c = r.choice(cols)
    have = {a[0] for a in c["attrs"]}
    ks = [k for k in NUMERIC if k not in have]
    if r.random() < 0.3:
        c["type"] = r.choice(TYPES)
    elif ks:
        c["attrs"].insert(r.randint(0, len(c["attrs"])), [r.choice(ks), g.num()])


def mut_call(d, r, g):
    cs = calls(d)
    if not cs:
        bs = bodies(d)
        if not bs:
            return
        b = r.choice(bs)[0]
        b.append(dict(k="call", recv=[], ext=None, fn="nope", args=[]))
        cs = [(b, len(b) - 1)]
    b, i = r.choice(cs)
    s = b[i]
    acts, als, orig = [a["name"] for a in d.actions], [e["alias"] for e in d.exts], [e["name"] for e in d.exts]
    wrong = ["nope", "init"] + acts + als * 2 + orig * 2 + [t["name"] for t in d.tables] + [other_case(x, r) for x in acts + als]
    if s["ext"] is None or r.random() < 0.15:
        s["ext"], s["recv"] = None, []
        s["fn"] = r.choice(wrong)
    else:
        s["ext"] = r.choice(wrong)
    for k in ("ext", "fn"):
        if s[k] in RESERVED and s[k] != "init":
            s[k] = "nope"
    if s["fn"] == "init" or s["ext"] == "init":
        s["fn"], s["ext"] = "nope", s["ext"] and "nope"


def mut_var(d, r, g):
    cs = calls(d)
    if not cs:
        return mut_call(d, r, g)
    b, i = r.choice(cs)
    s = b[i]
    if s["recv"] and r.random() < 0.25:
        s["recv"].insert(r.randint(0, len(s["recv"])), r.choice(s["recv"]))
        return
    if not s["args"]:
        s["args"] = [["1"]]
    spots = leaves(s["args"], lambda x: x[0] in "$@" or x[0].isdigit() or x[0] == "'", [])
    if not spots:
        return
    e, k = r.choice(spots)
    later = [v for x in b[i:] if x["k"] == "call" for v in x["recv"]]
    elsewhere = [p for a in d.actions for p in a["params"]] + [v for bb, j in cs for v in bb[j]["recv"]]
    e[k] = r.choice(["$undefined", "@block", "@Caller"] + later * 2 + elsewhere + ["$" + other_case(x[1:], r) for x in elsewhere[:3]])


def mut_mods(d, r, g):
    if d.actions and r.random() < 0.5:
        a = r.choice(d.actions)
        for _ in range(r.choice([1, 1, 2])):
            m = r.choice(a["mods"] or ["public"])
            m = r.choice([m, m, {"public": "private", "private": "public"}.get(m, m)])
            a["mods"].insert(r.randint(0, len(a["mods"])), m)
        return
    fks = [x for t in d.tables for x in t["items"] if x["k"] == "fk"]
    if not fks:
        if not d.tables:
            return
        t = r.choice(d.tables)
        x = dict(k="fk", kw="fk", child=[t["colnames"][0]], ref="ref", ptable=t["name"], parent=[t["colnames"][0]], acts=[["on_delete", False, "cascade"]])
        t["items"].append(x)
        fks = [x]
    x = r.choice(fks)
    for _ in range(r.choice([1, 1, 2])):
        e = r.choice(x["acts"])[0] if x["acts"] else "on_update"
        x["acts"].insert(r.randint(0, len(x["acts"])), [e, r.random() < 0.5, r.choice(REACTIONS)])


def mut_sql(d, r, g):
    bs = bodies(d)
    if not bs:
        return
    b = r.choice(bs)[0]
    text = r.choice(BAD_SQL) if r.random() < 0.5 or not g.badsqls else r.choice(g.badsqls)
    if r.random() < 0.4:
        c = r.random()
        w = text.split(" ")[0]
        text = (w.upper() if c < 0.4 else w.capitalize() if c < 0.8 else w.swapcase()) + text[len(w):]
    if r.random() < 0.25:
        text = stretch(text, r, False)
    qs = [i for i, s in enumerate(b) if s["k"] == "sql"]
    old = [s["text"] for x, _ in bs for s in x if s["k"] == "sql"]
    if old and r.random() < 0.35:        # nearly one that is there
        o = max(r.sample(old, min(3, len(old))), key=len)
        text = r.choice([o + r.choice([" and", " where random() = 1", " union select random()", ", random()", " limit random()", " where", ", posts"]),
                         o.replace(" id", " random()", 1), o.replace("abs(", "sqrt("), o.replace("1", "1.5"), o.rsplit(" ", 1)[0]])
        text = r.choice([text, text.replace(" ", "  ", 1), text[:6].swapcase() + text[6:]])
        if not is_sql(text):
            text = "select random()"
        b.append(dict(k="sql", text=text))
        return
    if qs and r.random() < 0.6:
        b[r.choice(qs)] = dict(k="sql", text=text)
    else:
        b.insert(r.randint(0, len(b)), dict(k="sql", text=text))


def mut_fn(d, r, g):
    cs = [(b, i) for b, i in calls(d) if b[i]["args"]]
    if not cs:
        return
    b, i = r.choice(cs)
    a = b[i]["args"]
    k = r.randrange(len(a))
    a[k] = r.choice([["nofn", "(", a[k], ")"], ["random", "(", ")"], ["count", "(", a[k], ")"], [a[k], "||", "'x'"], [a[k], "==", "1"], ["-", a[k]]])


def twin(d, r, g):
    """Something a second time, nearly: what is decided about the one need not hold for the other."""
    import copy
    c = r.random()
    if c < 0.35 and d.tables:
        t = copy.deepcopy(r.choice(d.tables))
        t["name"] = g.names.fresh([x["name"] for x in d.tables])
        d.tables.append(t)
        d.order.append(("t", len(d.tables) - 1))
    elif c < 0.7 and d.actions:
        a = copy.deepcopy(r.choice(d.actions))
        a["name"] = g.names.fresh([x["name"] for x in d.actions])
        if r.random() < 0.5 and a["params"]:
            i = r.randrange(len(a["params"]))
            if r.random() < 0.5:
                del a["params"][i]
            else:
                a["params"][i] = "$" + g.names.fresh([p[1:] for p in a["params"]])
        d.actions.append(a)
        d.order.append(("a", len(d.actions) - 1))
    elif c < 0.85 and len(bodies(d)) > 1:      # a statement of one body in another
        bs = [b for b, _ in bodies(d)]
        a, b = r.sample(range(len(bs)), 2)
        if bs[a]:
            bs[b].insert(r.randint(0, len(bs[b])), copy.deepcopy(r.choice(bs[a])))
    elif len(d.tables) > 1:                    # an item of one table in another
        t, u = r.sample(d.tables, 2)
        if t["items"]:
            x = copy.deepcopy(r.choice(t["items"]))
            if x["k"] == "col" and r.random() < 0.7:
                x["type"] = r.choice(TYPES)
            u["items"].insert(r.randint(1, len(u["items"])), x)
            if x["k"] == "col":
                u["colnames"] = [y["name"] for y in u["items"] if y["k"] == "col"]


MUTATIONS = {"C07": [mut_second_init], "C08": [mut_dup], "C09": [mut_ref], "C10": [mut_attr], "C11": [mut_call], "C12": [mut_var],
             "C13": [mut_mods], "C14": [mut_sql]}
ALL = [mut_second_init, mut_dup, mut_dup, mut_ref, mut_attr, mut_call, mut_var, mut_mods, mut_sql, mut_fn]


# ---------------------------------------------------------------- tokens
def tokens(d):
    toks = ["database", d.name, ";"]
    for e in d.exts:
        toks += ["use", e["name"]]
        if e["cfg"]:
            toks += ["{"] + clist([[k if k not in RESERVED else "q", ":", v] for k, v in e["cfg"]]) + ["}"]
        toks += ["as", e["alias"], ";"]
    for k, i in d.order:
        if k == "t":
            toks += table_tokens(d.tables[i])
        elif k == "a":
            a = d.actions[i]
            for n, args in a["anns"]:
                toks += ["@" + n, "("] + clist([[x, "=", v] for x, v in args]) + [")"]
            toks += ["action", a["name"], "("] + clist(a["params"]) + [")"] + a["mods"] + ["{"] + stmt_tokens(a["stmts"]) + ["}"]
        else:
            toks += ["init", "(", ")", "{"] + stmt_tokens(d.inits[i]) + ["}"]
    return toks


def table_tokens(t):
    out = []
    for x in t["items"]:
        if x["k"] == "col":
            it = [x["name"], x["type"]]
            for k, v in x["attrs"]:
                it += [k] + (["(", v, ")"] if v is not None else [])
        elif x["k"] == "idx":
            it = ["#" + x["name"], x["type"], "("] + clist(x["cols"]) + [")"]
        else:
            it = [x["kw"], "("] + clist(x["child"]) + [")", x["ref"], x["ptable"], "("] + clist(x["parent"]) + [")"]
            for e, do, a in x["acts"]:
                it += [e] + (["do"] if do else []) + [a]
        out.append(it)
    return ["table", t["name"], "{"] + clist(out) + ([","] if t["comma"] else []) + ["}"]


def stmt_tokens(b):
    out = []
    for s in b:
        if s["k"] == "sql":
            out += [s["text"], ";"]
        else:
            out += (clist(s["recv"]) + ["="] if s["recv"] else []) + ([s["ext"], "."] if s["ext"] else []) + [s["fn"], "("]
            out += flat(clist(s["args"])) + [")", ";"]
    return out


def lose(toks, r):
    """One token lost, doubled, replaced or moved."""
    k = r.randrange(len(toks))
    c = r.random()
    if c < 0.35:
        del toks[k]
    elif c < 0.6:
        toks.insert(k, r.choice(toks))
    elif c < 0.85:
        toks[k] = r.choice(["?", ",", "x", "}", "1", "'s'", "table", "$v", ";", "(", "int", "not", "=", "#i", "@a", "select 1", "."])
    else:
        j = r.randrange(len(toks))
        toks[k], toks[j] = toks[j], toks[k]


LAYOUT = [" ", " ", " ", "  ", "\n", "\t", "\n\t", "\r\n", "\r", "/* c */", " // x\n", "/**/", " /* ; } ' */ ", "//'\r", "/* \U0001f600\U0001f601 */", "\n\n\n", " \t ", "/* \u00e9\n */",
          "// // /* x\n", "/*//*/", "/* select 1; */", "// } table t {\r\n"]


def wordy(c):
    return c.isalnum() and c.isascii() or c == "_"


def must(a, b):
    """the tokens a and b (texts) need something between them"""
    if not a or not b:
        return False
    wa = wordy(a[-1]) and not a[0].isdigit() and a[0] != "'"
    if wa and wordy(b[0]):
        return True
    if a[0].isdigit() and b[0].isdigit():
        return True
    if a in "#$@" and (wordy(b[0])):
        return True
    st = "<>=|/*&!"
    return a[-1] in st and b[0] in st


def is_sql(t):
    return t[:6].lower() in SQLWORDS or t[:4].lower() == "with" and " " in t


def code_comment(toks, i, rng):
    """A comment that looks like a part of a source."""
    j = rng.choice([i, i, rng.randrange(len(toks))])
    if HINTS.texts and rng.random() < 0.15:
        q = [HINTS.text(rng)]
    else:
        q = rng.choice([toks[j:j + rng.choice([1, 1, 2, 3, 6])], ["@n", "(", "a", "=", "1", ")"], ["@kgw(", "authn", "=", "'x'", ")"], toks[max(0, j - 3):j]])
    t = rng.choice(["", " "]).join(q)
    if "/" in t or "*" in t or "\n" in t or "\r" in t:
        t = "x"
    return rng.choice(["/*%s*/", "/* %s */", "/**%s*/", "/** %s */", "//%s\n", "// %s\r\n", "/*+ %s */", "/*\n * %s\n */"]) % t


def layout(toks, rng, style):
    """style: 0 sparse, 1 one blank, 2 anything"""
    out = []
    prev = ""
    for i, t in enumerate(toks):
        if prev and is_sql(prev) and (" " in prev):
            sep = ""          # layout behind SQL text belongs to it
        elif style == 1:
            sep = " " if i else ""
        elif style == 3:      # as people write
            sep = "" if t in (",", ";", ")", ".") or prev in ("(", ".") and not must(prev, t) else "\n" if prev in (";", "{", "}") else " "
            sep = sep if i else ""
        else:
            m = must(prev, t)
            if style == 0 or rng.random() < 0.5:
                sep = " " if m else ""
            else:
                sep = "".join(code_comment(toks, i, rng) if rng.random() < 0.12 else rng.choice(LAYOUT) for _ in range(rng.choice([1, 1, 2])))
        out.append(sep + t)
        prev = t
    return "".join(out) + (rng.choice(["", "\n", " // end", "/* end */", "\r"]) if style == 2 else "")


def stretch(s, r, good=True):
    """An SQL text of another length: behind its end, or in a literal."""
    n = HINTS.size(r, 5000) if r.random() < 0.6 else None
    if n is None:
        n = r.choice([80, 130, 260, 300, 420, 520, 1030, 2060, 4110])
    if "/*" in s or len(s) >= n:
        return s
    if good and r.random() < 0.3:
        return "select '" + "x" * n + "'"
    if good and r.random() < 0.3 and n < 400:
        return "select " + ", ".join(str(i) for i in range(n))
    if r.random() < 0.3 and s[:7].lower() == "select " and s[7:15].lower() != "distinct":
        return "select '" + "x" * (n - len(s) - 4) + "', " + s[7:] if n - len(s) > 5 else s
    if r.random() < 0.4:
        w = s.split(" ", 1)
        return w[0] + " " * (n - len(s) + r.choice([0, 1, 2])) + " " + w[1] if len(w) > 1 else s
    k = n - len(s) - r.choice([0, 1, 7, 13])
    return s.rstrip() + " " + (" " * (k - 1) if r.random() < 0.5 or k < 6 else "/*" + "x" * (k - 5) + "*/") if k > 0 else s


def sql_texts(seed, count):
    """Random SQL texts; the SQL library tells which are valid."""
    rng = random.Random(seed)
    q = Sql(rng)
    out = []
    for i in range(count):
        s = q.statement(rng.random() < 0.45)
        w = s.split(" ", 1)[0].lower()
        if w in SQLWORDS and " " in s:
            out.append(s)
    return sorted(set(out))


def sources(seed, count, faulty=0.5, big=1.0, theme="", good=(), bad=(), used=None):
    """faulty: how many get a mutation; good, bad: SQL texts known to be valid, invalid;
    used: gets the SQL texts that occur."""
    rng = random.Random(seed)
    out = []
    for i in range(count):
        g = drawer(rng, theme, big, good, bad)
        d = drawn(g, faulty)
        if used is not None:
            used.update(sqls_of(d))
        out.append(written(g, d, faulty))
    return out


def drawer(rng, theme="", big=1.0, good=(), bad=()):
    g = G(rng, theme, big, good)
    g.badsqls = list(bad)
    return g


def damage(g, d):
    rng = g.r
    for _ in range(rng.choice([1, 1, 1, 2])):
        rng.choice(MUTATIONS[g.theme] if g.theme in MUTATIONS and rng.random() < 0.8 else ALL)(d, rng, g)


def drawn(g, faulty):
    rng = g.r
    d = g.document()
    if rng.random() < faulty:
        recopy(d)
        if rng.random() < 0.4:
            twin(d, rng, g)
        damage(g, d)
    elif faulty and rng.random() < 0.15:
        recopy(d)
        twin(d, rng, g)
    return d


def sqls_of(d):
    return {s["text"] for b, _ in bodies(d) for s in b if s["k"] == "sql"}


def written(g, d, faulty):
    rng, theme = g.r, g.theme
    toks = tokens(d)
    if faulty and rng.random() < (0.5 if theme == "C15" else 0.25 if theme == "C18" else 0.03):
        lose(toks, rng)
    s = layout(toks, rng, rng.choice([2, 2, 0, 2] if theme == "C16" else [0, 1, 1, 2, 2, 3]))
    if rng.random() < (0.2 if theme in ("C15", "C16", "C18") else 0.03):      # far down, or far to the right
        k = s.find(";") + 1
        n = HINTS.size(rng, 2000) if rng.random() < 0.5 else None
        s = s[:k] + rng.choice(["\n", " ", "// c\n", "\r\n", "/* c */", "\t"]) * (n or rng.choice([10, 50, 70, 130, 300])) + s[k:]
    return s


# ---------------------------------------------------------------- growing documents out of documents
def lists_of(d):
    """Every list of a document, with a way to make another member."""
    out = [(d.exts, "ext"), (d.tables, "table"), (d.actions, "action")]
    for e in d.exts:
        out.append((e["cfg"], "cfg"))
    for t in d.tables:
        out.append((t["items"], "item"))
        for x in t["items"]:
            if x["k"] == "col":
                out.append((x["attrs"], "attr"))
            elif x["k"] == "idx":
                out.append((x["cols"], ("col", t["colnames"])))
            else:
                out += [(x["child"], ("col", t["colnames"])), (x["parent"], "again"), (x["acts"], "act")]
    for a in d.actions:
        out += [(a["params"], "param"), (a["anns"], "again")] + [(n[1], "ann") for n in a["anns"]]
    for b, known in bodies(d):
        out.append((b, ("stmt", known)))
        for s in b:
            if s["k"] == "call":
                out += [(s["args"], ("arg", known)), (s["recv"], "recv" if s["ext"] else "none")]
    return out


def another(g, d, q, kind):
    import copy
    r = g.r
    old = copy.deepcopy(r.choice(q)) if q else None
    tag = kind[0] if isinstance(kind, tuple) else kind
    if tag == "ext":
        al = [e["alias"] for e in d.exts]
        x = old or dict(name="ext", cfg=[], alias="")
        x["alias"] = g.names.fresh(al)
        return x
    if tag == "table":
        used = [t["name"] for t in d.tables]
        n = g.names.fresh(used)
        if old and r.random() < 0.7:
            old["name"] = n
            return old
        t = dict(name=n, colnames=[g.names.fresh([]) for _ in range(r.choice([1, 2]))])
        g.table(t, d.tables + [t])
        return t
    if tag == "action":
        n = g.names.fresh([a["name"] for a in d.actions])
        if old and r.random() < 0.7:
            old["name"] = n
            return old
        pu = []
        a = dict(name=n, params=["$" + g.names.fresh(pu) for _ in range(r.choice([0, 1, 2]))])
        g.action(a, d)
        return a
    if tag == "item":
        used = [x["name"] for x in q if x["k"] != "fk"]
        x = old
        if x["k"] == "col":
            if r.random() < 0.5:
                x["type"] = r.choice(TYPES)
                x["attrs"] = g.attrs(x["type"])
        if x["k"] != "fk":
            x["name"] = g.names.fresh(used)
        return x
    if tag == "attr":
        k = r.choice(KINDS)
        return [k, g.lit() if k == "default" else g.num() if k in NUMERIC else None]
    if tag == "cfg" or tag == "ann":
        n = g.names.draw()
        return [n if n not in RESERVED else "q", g.lit()]
    if tag == "col":
        return r.choice(kind[1])
    if tag == "again":
        return old
    if tag == "act":
        return [r.choice(["on_update", "on_delete"]), r.random() < 0.5, r.choice(REACTIONS)]
    if tag == "param":
        return "$" + g.names.fresh([p[1:] for p in q])
    if tag == "stmt":
        if old and r.random() < 0.4:
            return old
        for _ in range(5):
            b = g.body(kind[1], d)
            if b:
                return r.choice(b)
        return old
    if tag == "arg":
        return g.expr(kind[1], r.choice([0, 1, 2]))
    if tag == "recv":
        return "$" + g.names.fresh([p[1:] for p in q])
    return None


def evolved(g, d, other, faulty):
    """A document made out of d, with pieces of another one."""
    import copy
    r = g.r
    d = copy.deepcopy(d)
    for _ in range(r.choice([1, 1, 2, 3])):
        c = r.random()
        ls = lists_of(d)
        if c < 0.45:
            q, kind = r.choice(ls)
            if kind in ("none", "item", "again") and not q:
                continue
            n = len(q) + r.choice([1, 1, 2, 3, len(q), 3 * len(q)])
            if r.random() < 0.4:
                n = HINTS.size(r, 300) or n
            n = min(n, 140 if kind in ("table", "action", "item") or isinstance(kind, tuple) else 300)
            while len(q) < n:
                x = another(g, d, q, kind)
                if x is None:
                    break
                q.insert(r.randint(1 if kind == "item" else 0, len(q)) if r.random() < 0.5 else len(q), x)
        elif c < 0.6:
            q, kind = r.choice(ls)
            if len(q) > (1 if kind in ("item", "again", "ann") or isinstance(kind, tuple) and kind[0] in ("col", "stmt") else 0):
                i = r.randrange(1 if kind == "item" else 0, len(q))
                del q[i]
        elif c < 0.75 and other is not None:
            k = r.choice(["tables", "actions", "exts"])
            xs = getattr(other, k)
            if xs:
                x = copy.deepcopy(r.choice(xs))
                f = "alias" if k == "exts" else "name"
                if x[f] in [y[f] for y in getattr(d, k)] and r.random() < 0.9:
                    x[f] = g.names.fresh([y[f] for y in getattr(d, k)])
                getattr(d, k).append(x)
        elif c < 0.85:
            q, kind = r.choice(ls)
            if len(q) > 1 and kind != "item":
                i, j = r.sample(range(len(q)), 2)
                q[i], q[j] = q[j], q[i]
        elif c < 0.92:
            for a in d.actions:
                if r.random() < 0.5:
                    a["mods"] = r.sample(["public" if r.random() < 0.6 else "private", "view", "owner"], r.choice([0, 1, 1, 2, 3]))
        else:
            renamed(g, d)
    for t in d.tables:
        t["colnames"] = [x["name"] for x in t["items"] if x["k"] == "col"]
    if r.random() < faulty * 0.6:
        damage(g, d)
    settle(d, r)
    return d


def renamed(g, d):
    """One name changed, wherever it is meant."""
    r = g.r
    c = r.choice(["table", "column", "action", "alias"])
    if c == "table" and d.tables:
        t = r.choice(d.tables)
        old, new = t["name"], g.names.fresh([x["name"] for x in d.tables])
        t["name"] = new
        for u in d.tables:
            for x in u["items"]:
                if x["k"] == "fk" and x["ptable"] == old:
                    x["ptable"] = new
    elif c == "column" and d.tables:
        t = r.choice(d.tables)
        cols = [x for x in t["items"] if x["k"] == "col"]
        x = r.choice(cols)
        old, new = x["name"], g.names.fresh([y["name"] for y in t["items"] if y["k"] != "fk"])
        x["name"] = new
        sub = lambda q: [new if y == old else y for y in q]      # noqa
        for u in d.tables:
            for y in u["items"]:
                if y["k"] == "idx" and u is t:
                    y["cols"] = sub(y["cols"])
                if y["k"] == "fk":
                    if u is t:
                        y["child"] = sub(y["child"])
                    if y["ptable"] == t["name"]:
                        y["parent"] = sub(y["parent"])
    elif c == "action" and d.actions:
        a = r.choice(d.actions)
        old, new = a["name"], g.names.fresh([x["name"] for x in d.actions])
        a["name"] = new
        for b, _ in bodies(d):
            for s in b:
                if s["k"] == "call" and not s["ext"] and s["fn"] == old:
                    s["fn"] = new
    elif c == "alias" and d.exts:
        e = r.choice(d.exts)
        old, new = e["alias"], g.names.fresh([x["alias"] for x in d.exts])
        e["alias"] = new
        for b, _ in bodies(d):
            for s in b:
                if s["k"] == "call" and s["ext"] == old:
                    s["ext"] = new


def settle(d, r):
    """Declarations that came or went get a place, or lose it."""
    have = {"t": len(d.tables), "a": len(d.actions), "i": len(d.inits)}
    d.order = [(k, i) for k, i in d.order if i < have[k]]
    for k in "tai":
        for i in range(have[k]):
            if (k, i) not in d.order:
                d.order.insert(r.randint(0, len(d.order)), (k, i))
    for k in "ta":
        xs = iter(sorted(i for kk, i in d.order if kk == k))
        d.order = [(kk, next(xs) if kk == k else i) for kk, i in d.order]


FIXED = RESERVED | SQLWORDS | {"from", "where", "values", "into", "set", "order", "by", "group", "having", "limit", "offset", "join", "inner", "left", "on", "is", "null", "in",
                               "like", "between", "exists", "case", "when", "then", "else", "end", "distinct", "union", "all", "intersect", "except", "desc", "asc", "collate",
                               "nocase", "conflict", "nothing", "returning", "excluded", "abs", "lower", "upper", "length", "format", "count", "sum", "error", "caller", "outer",
                               "random", "sqrt", "cross", "natural", "true", "false", "using", "full", "right", "glob", "escape", "cast", "isnull", "notnull", "first", "last", "nulls"}


def variant(s, rng):
    """A source of the same shape with other names, numbers and strings."""
    import re
    how = rng.randrange(4)
    as_new = {}

    def word(m):
        w = m.group(0)
        if w.lower() in FIXED:
            return w
        if w not in as_new:
            as_new[w] = [w + "q", w[:-1] + ("z" if w[-1] != "z" else "y"), w.swapcase(), "v" + w][how]
        x = as_new[w]
        return x if x.lower() not in FIXED else w
    s = re.sub(r"[A-Za-z_][A-Za-z_0-9]*", word, s)
    if rng.random() < 0.6:
        s = re.sub(r"(?<![A-Za-z_0-9])[0-9]+(?![A-Za-z_])", lambda m: str(int(m.group(0)[:18]) + 1), s)
    return s


SQLWORD = re.compile(rb"(?i)select|insert|update|delete|with|replace|values")
QUOTED = re.compile(rb"'[^']*'|\"[^\"]*\"")


def deepest(b):
    """How deep parentheses nest from the first word of SQL on, strings counted or not."""
    m = SQLWORD.search(b)
    if not m:
        return 0
    best = 0
    for x in (b[m.start():], QUOTED.sub(b"", b[m.start():])):
        d = 0
        for c in x:
            d = max(0, d + (c == 40) - (c == 41))
            best = max(best, d)
    return best


def bend(b, rng, base):
    """Bytes changed at a few places.  Parentheses in SQL stay shallow: deep ones are a
    recorded finding of C17 (exponential time), met by its own input."""
    for _ in range(20):
        c = bent(b, rng, base)
        if deepest(c) <= 6:
            return c
    return b if deepest(b) <= 6 else b"database d;"


def bent(b, rng, base):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        i = rng.randrange(len(b) + 1)
        j = min(len(b), i + rng.choice([0, 1, 1, 2, 5, 20]))
        c = rng.random()
        if c < 0.25:
            del b[i:j]
        elif c < 0.5:
            b[i:i] = bytes(rng.choice([rng.randrange(256), rng.choice(b"'\\/*{}();,@$#\n")]) for _ in range(rng.randint(1, 3)))
        elif c < 0.7:
            o = rng.choice(base)
            if o:
                k = rng.randrange(len(o))
                b[i:j] = o[k:k + rng.randint(1, 30)]
        elif c < 0.8:
            b[i:j] = bytes(rng.randrange(256) for _ in range(j - i))
        elif c < 0.88:
            o = rng.choice(HINTS.texts) if HINTS.texts else "'"
            b[i:j] = o.encode("utf-8", "replace")
        elif c < 0.96:      # a stretch over and over
            n = HINTS.size(rng, 400) or rng.randint(2, 40)
            b[i:i] = bytes(b[i:j] or b"(") * n
        else:
            b[i:i] = rng.choice(["\u2028", "\ufeff", "\U0001f600", "\u00e9"]).encode()
        if len(b) > 20000:
            del b[20000:]
    return bytes(b)


SPOIL = ["$", "'", "/", "*", "x", "9", "_", ";", "\\", "?", '"', "@", " ", "{", "}", "(", ")", ",", "#", "\u00e9", "\n", "table ",
         " init", "not", "$x", "'s'", "// c\n", "/* c */", "use x as y; ", " select 1; ", "\ufffd", "\u2028", "\ufeff", "\u00a0", "\u200b", "\U0001f600",
         "\x00", "\x0b", "\x0c", "\x85", "\x7f", "\u0130", "\u212a", "`", "[", "^", "\x1a"]


def spoil(srcs, seed):
    """Damaged copies: a character dropped, doubled, replaced; text cut or spliced."""
    rng = random.Random(seed * 77 + 5)
    out = []
    for s in srcs:
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            i = rng.choice([rng.randrange(len(s) + 1), rng.randrange(len(s) + 1), rng.randrange(len(s) + 1), 0, len(s)])
            c = rng.random()
            if c < 0.3:
                s = s[:i] + s[i + 1:]
            elif c < 0.6:
                s = s[:i] + rng.choice(SPOIL) + s[i:]
            elif c < 0.8:
                s = s[:i] + rng.choice(SPOIL) + s[i + 1:]
            elif c < 0.9:
                s = s[:i]
            else:
                j = rng.randrange(len(s) + 1)
                s = s[:i] + s[j:]
            if not s:
                break
        out.append(s)
    return out


if __name__ == "__main__":
    import sys
    for s in sources(int(sys.argv[1]), int(sys.argv[2]), theme=sys.argv[3] if len(sys.argv) > 3 else ""):
        print(repr(s))
