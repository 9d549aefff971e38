"""Token based translation of the SQL that SQLAlchemy emits for PostgreSQL / MySQL into SQL for
the storage engine of the simulated servers (one SQLite file, tables named "schema.table")."""
import re

TOKEN = re.compile(
    r"""
    (?P<ws>\s+)
  | (?P<str>'(?:[^']|'')*')
  | (?P<dq>"(?:[^"]|"")*")
  | (?P<bq>`(?:[^`]|``)*`)
  | (?P<pct>%%)
  | (?P<param>%\((?P<pname>[^)]*)\)s|%s)
  | (?P<num>\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)
  | (?P<word>[A-Za-z_\x80-\U0010ffff][A-Za-z0-9_$\x80-\U0010ffff]*)
  | (?P<op><>|!=|<=|>=|\|\||::|.)
    """,
    re.X | re.S,
)

TABLE_KW = {"FROM", "JOIN", "INTO", "UPDATE", "TABLE", "REFERENCES"}
FROM_END = {
    "WHERE", "GROUP", "ORDER", "LIMIT", "SET", "UNION", "SELECT", "HAVING", "VALUES", "EXCEPT",
    "INTERSECT", "RETURNING", "WINDOW",
}


class Tok:
    __slots__ = ("kind", "text", "val")

    def __init__(self, kind, text, val=None):
        self.kind = kind
        self.text = text
        self.val = val

    def __repr__(self):
        return f"<{self.kind} {self.text!r}>"

    @property
    def up(self):
        return self.text.upper() if self.kind == "word" else self.text


class SQLSyntaxError(Exception):
    pass


def tokenize(sql, dialect):
    out = []
    pos = 0
    while pos < len(sql):
        m = TOKEN.match(sql, pos)
        pos = m.end()
        k = m.lastgroup
        if m.group("ws"):
            continue
        if m.group("str") is not None:
            out.append(Tok("str", m.group("str").replace("%%", "%")))
        elif m.group("dq") is not None:
            if dialect == "mysql":
                out.append(Tok("str", "'" + m.group("dq")[1:-1].replace("'", "''") + "'"))
            else:
                name = m.group("dq")[1:-1].replace('""', '"').replace("%%", "%")
                out.append(Tok("ident", m.group("dq"), name))
        elif m.group("bq") is not None:
            name = m.group("bq")[1:-1].replace("``", "`").replace("%%", "%")
            out.append(Tok("ident", m.group("bq"), name))
        elif m.group("pct"):
            out.append(Tok("op", "%"))
        elif m.group("param"):
            out.append(Tok("param", "?", m.group("pname")))
        elif m.group("num"):
            out.append(Tok("num", m.group("num")))
        elif m.group("word"):
            out.append(Tok("word", m.group("word"), m.group("word")))
        else:
            out.append(Tok("op", m.group("op")))
    return out


KEYWORDS = set(
    """SELECT FROM WHERE AND OR NOT IN IS NULL AS ON JOIN LEFT OUTER INNER RIGHT CROSS GROUP BY
    ORDER LIMIT OFFSET UNION ALL EXCEPT INTERSECT INSERT INTO VALUES UPDATE SET DELETE CREATE
    TABLE TEMPORARY INDEX UNIQUE PRIMARY KEY FOREIGN REFERENCES CONSTRAINT CHECK DEFAULT EXISTS
    LIKE BETWEEN CASE WHEN THEN ELSE END CAST ASC DESC DISTINCT OVER PARTITION ROWS RANGE ADD
    ALTER DROP IF CONFLICT DO NOTHING DUPLICATE IGNORE TRUE FALSE HAVING RETURNING ESCAPE
    WITH RECURSIVE USING""".split()
)


def is_ident(tok, i, toks):
    if tok.kind == "ident":
        return True
    if tok.kind == "word":
        if i + 1 < len(toks) and toks[i + 1].text == "(" and tok.up not in KEYWORDS:
            return False  # function call, unless in table position (handled by the caller)
        return tok.up not in KEYWORDS
    return False


def quote(name):
    return '"' + name.replace('"', '""') + '"'


class Translated:
    def __init__(self):
        self.sql = ""
        self.params = []
        self.tables = []  # (name as stored, position kind)
        self.verb = ""
        self.ordered = False
        self.target = None


def match_parens(toks):
    stack, res = [], {}
    for i, t in enumerate(toks):
        if t.text == "(" and t.kind == "op":
            stack.append(i)
        elif t.text == ")" and t.kind == "op":
            if not stack:
                raise SQLSyntaxError("unbalanced )")
            j = stack.pop()
            res[j] = i
            res[i] = j
    if stack:
        raise SQLSyntaxError("unbalanced (")
    return res


def translate(sql, dialect, default_table):
    """default_table(name) -> stored name of an unqualified table."""
    toks = tokenize(sql, dialect)
    if dialect == "postgresql":
        toks = strip_pg_casts(toks)
    return translate_tokens(toks, dialect, default_table)


def strip_pg_casts(toks):
    """regclass values are kept as text; `x::type` drops the cast."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "word" and t.up == "REGCLASS" and out and out[-1].up == "AS":
            out.append(Tok("op", "TEXT"))
        elif t.text == "::" or (t.text == ":" and i + 1 < len(toks) and toks[i + 1].text == ":"):
            i += 2 if t.text == "::" else 3
            continue
        else:
            out.append(t)
        i += 1
    return out


def translate_tokens(toks, dialect, default_table):
    res = Translated()
    if not toks:
        return res
    parens = match_parens(toks)
    out = []
    res.verb = toks[0].up
    in_from = [False]  # per depth
    expect_table = False
    i = 0
    n = len(toks)
    setops = {"UNION", "EXCEPT", "INTERSECT"}
    wrap_close = set()

    def prev_up():
        for t in reversed(out):
            return t[1]
        return ""

    def emit(text, up=None):
        out.append((text, up or text.upper()))

    new_alias = None
    while i < n:
        t = toks[i]
        up = t.up
        nxt = toks[i + 1] if i + 1 < n else None
        # ------------------------------------------------------------ parens
        if t.kind == "op" and t.text == "(":
            close = parens[i]
            if nxt is not None and nxt.up == "SELECT":
                before = toks[i - 1].up if i else ""
                after = toks[close + 1].up if close + 1 < n else ""
                if (
                    (after in setops and before in ("", "(", ")"))
                    or before in setops
                    or (before == "ALL" and i >= 2 and toks[i - 2].up in setops)
                ):
                    emit("SELECT * FROM (")
                    in_from.append(False)
                    i += 1
                    expect_table = False
                    continue
            if (
                out
                and out[-1][1] == "IN"
                and nxt is not None
                and nxt.text == "("
                and toks[i + 2].up != "SELECT"
                and toks[parens[i + 1] - 1].kind != "op"
            ):
                # IN ((a, b), (c, d))
                emit("(")
                emit("VALUES")
                in_from.append(False)
                i += 1
                continue
            emit("(")
            in_from.append(False)
            expect_table_here = expect_table
            if expect_table_here and nxt is not None and nxt.up != "SELECT":
                in_from[-1] = True  # parenthesised join: FROM (a JOIN b)
            else:
                expect_table = False
            i += 1
            continue
        if t.kind == "op" and t.text == ")":
            if len(in_from) > 1:
                in_from.pop()
            expect_table = False
            emit(")")
            i += 1
            continue
        if t.kind == "op" and t.text == ",":
            emit(",")
            if in_from[-1]:
                expect_table = True
            i += 1
            continue
        if t.kind == "param":
            res.params.append(t.val)
            emit("?")
            i += 1
            continue
        if t.kind == "word" and up in KEYWORDS or (
            t.kind == "word" and up in ("ROLLUP", "DUPLICATE", "IGNORE", "ONLY")
        ):
            # statement level rewrites
            if up == "IGNORE" and prev_up() == "INSERT":
                emit("OR IGNORE")
                i += 1
                continue
            if up == "ON" and nxt is not None and nxt.up == "DUPLICATE":
                # ON DUPLICATE KEY UPDATE
                emit("ON CONFLICT DO UPDATE SET")
                i += 4
                expect_table = False
                in_from[-1] = False
                continue
            if (
                dialect == "mysql"
                and up == "AS"
                and res.verb == "INSERT"
                and nxt is not None
                and i + 2 < n
                and toks[i + 2].up == "ON"
                and i + 3 < n
                and toks[i + 3].up == "DUPLICATE"
            ):
                new_alias = nxt.val
                i += 2
                continue
            if up == "UPDATE" and prev_up() == "DO":
                if dialect == "postgresql" and out[-2][1] == "CONFLICT":
                    # as PostgreSQL: requires an inference specification
                    raise SQLSyntaxError("ON CONFLICT DO UPDATE requires inference "
                                         "specification or constraint name")
                emit("UPDATE")
                i += 1
                continue
            if up == "FROM" and prev_up() == "DISTINCT":
                pass  # IS [NOT] DISTINCT FROM
            elif up == "FROM":
                in_from[-1] = True
                expect_table = True
            elif up == "JOIN":
                in_from[-1] = True
                expect_table = True
            elif up in TABLE_KW:
                expect_table = True
            elif up in FROM_END:
                in_from[-1] = False
                expect_table = False
            elif up == "ON" and res.verb == "CREATE":
                expect_table = True
            elif up in ("IF", "NOT", "EXISTS") and expect_table:
                pass
            if up == "ORDER" and len(in_from) == 1:
                res.ordered = True
            emit(t.text)
            i += 1
            continue
        if t.kind in ("ident", "word"):
            parts = []
            j = i
            while True:
                tk = toks[j]
                if tk.kind not in ("ident", "word"):
                    break
                parts.append(tk)
                if j + 1 < n and toks[j + 1].text == "." and j + 2 < n:
                    j += 2
                    continue
                j += 1
                break
            names = []
            for p in parts:
                if p.kind == "word" and dialect == "postgresql":
                    names.append(p.val.lower())
                else:
                    names.append(p.val)
            if expect_table:
                if len(parts) == 2:
                    stored = f"{names[0]}.{names[1]}"
                elif len(parts) == 1:
                    stored = default_table(names[0])
                else:
                    raise SQLSyntaxError(f"bad table name {names}")
                res.tables.append(stored)
                if res.target is None:
                    res.target = stored
                emit(quote(stored), "IDENT")
                expect_table = False
            elif len(parts) == 3:
                emit(f"{quote(names[0] + '.' + names[1])}.{quote(names[2])}", "IDENT")
            elif len(parts) == 2:
                if new_alias is not None and names[0] == new_alias:
                    emit(f"excluded.{quote(names[1])}", "IDENT")
                elif toks[j].text == "(" if j < n else False:
                    emit(f"{names[-1]}", "FUNC")  # schema qualified function
                else:
                    # alias.column, or temp_table.column in PostgreSQL
                    emit(f"{quote(resolve_alias(names[0], res, default_table))}.{quote(names[1])}",
                         "IDENT")
            else:
                if t.kind == "word" and j < n and toks[j].text == "(":
                    fn = t.val.lower()
                    if fn in ("rand", "random"):
                        emit("sim_random", "FUNC")
                    elif fn == "values" and dialect == "mysql":
                        # VALUES(col) in ON DUPLICATE KEY UPDATE
                        emit(f"excluded.{quote(toks[j + 1].val)}", "IDENT")
                        j = parens[j] + 1
                    else:
                        emit(t.val, "FUNC")
                elif t.kind == "word" and t.val.upper() in TYPE_WORDS and not _column_position(out):
                    emit(t.val, "WORD")
                else:
                    emit(quote(names[0]), "IDENT")
            i = j
            continue
        emit(t.text)
        i += 1
    res.sql = " ".join(o[0] for o in out)
    return res


TYPE_WORDS = {
    "INTEGER", "INT", "TEXT", "VARCHAR", "CHAR", "SIGNED", "UNSIGNED", "FLOAT", "DOUBLE",
    "PRECISION", "NUMERIC", "DECIMAL", "BOOLEAN", "DATE", "DATETIME", "TIMESTAMP", "BIGINT",
    "CURRENT", "ROW", "PRECEDING", "UNBOUNDED", "FOLLOWING",
}


def _column_position(out):
    """True if the word can only be a column name here."""
    if not out:
        return False
    return out[-1][1] != "AS" or "CAST" not in [o[1] for o in out[-6:]]


def resolve_alias(name, res, default_table):
    return default_table(name) if default_table(name) in res.tables else name


def split_top(toks):
    """Split a token list at top level commas."""
    parts, cur, depth = [], [], 0
    for t in toks:
        if t.kind == "op" and t.text == "(":
            depth += 1
        elif t.kind == "op" and t.text == ")":
            depth -= 1
        if t.kind == "op" and t.text == "," and depth == 0:
            parts.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        parts.append(cur)
    return parts


def fold(tok, dialect):
    if tok.kind == "word" and dialect == "postgresql":
        return tok.val.lower()
    return tok.val


def plain(toks):
    """The text of an expression, without parentheses around all of it."""
    toks = list(toks)
    while toks and toks[0].text == "(":
        depth = 0
        for k, t in enumerate(toks):
            depth += {"(": 1, ")": -1}.get(t.text, 0) if t.kind == "op" else 0
            if not depth:
                break
        if k != len(toks) - 1:
            break
        toks = toks[1:-1]
    return " ".join(t.text for t in toks)


def name_list(toks, i, dialect, exprs=None):
    """Parse `( a, b )` starting at index i; returns (names, next index).  Expressions in it are
    added to `exprs`, if given."""
    if toks[i].text != "(":
        raise SQLSyntaxError("expected (")
    names = []
    i += 1
    while toks[i].text != ")":
        if toks[i].text == ",":
            i += 1
            continue
        if toks[i].kind in ("ident", "word"):
            if toks[i].kind == "word" and toks[i].up in ("ASC", "DESC"):
                i += 1
                continue
            if exprs is None or toks[i + 1].text in (",", ")") or toks[i + 1].kind == "word":
                names.append(fold(toks[i], dialect))
                i += 1
                continue
        if exprs is None:
            raise SQLSyntaxError(f"unexpected {toks[i]!r} in column list")
        depth, j = 0, i
        while depth or toks[j].text not in (",", ")"):
            depth += {"(": 1, ")": -1}.get(toks[j].text, 0)
            j += 1
        exprs.append(plain(toks[i:j]))
        i = j
    return names, i + 1


def table_name(toks, i, dialect):
    names = [fold(toks[i], dialect)]
    i += 1
    while i < len(toks) and toks[i].text == ".":
        names.append(fold(toks[i + 1], dialect))
        i += 2
    return names, i


def untokenize(toks):
    return " ".join(quote(t.val) if t.kind == "ident" else t.text for t in toks)


def parse_create_table(toks, dialect):
    """Returns (temporary, names, definition dict)."""
    i = 1
    temporary = False
    if toks[i].up == "TEMPORARY":
        temporary = True
        i += 1
    if toks[i].up != "TABLE":
        raise SQLSyntaxError("unsupported CREATE")
    i += 1
    if toks[i].up == "IF":
        i += 3
    names, i = table_name(toks, i, dialect)
    close = match_parens(toks)[i]
    body = toks[i + 1 : close]
    d = {"cols": [], "pk": [], "uniques": [], "fks": [], "indexes": [], "checks": []}
    for part in split_top(body):
        p = 0
        cname = None
        if part[0].kind == "word" and part[0].up == "CONSTRAINT":
            cname = fold(part[1], dialect)
            p = 2
        head = part[p].up if part[p].kind == "word" else ""
        if head == "PRIMARY":
            d["pk"], _ = name_list(part, p + 2, dialect)
        elif head == "UNIQUE":
            cols, _ = name_list(part, p + 1, dialect)
            d["uniques"].append({"name": cname, "cols": cols})
        elif head == "CHECK":
            d["checks"].append({"name": cname, "sql": untokenize(part[p + 2 : -1])})
        elif head == "FOREIGN":
            d["fks"].append(parse_fk(part, p, cname, dialect))
        else:
            d["cols"].append(parse_column(part, dialect))
    return temporary, names, d


def parse_fk(part, p, cname, dialect):
    cols, q = name_list(part, p + 2, dialect)
    if part[q].up != "REFERENCES":
        raise SQLSyntaxError("expected REFERENCES")
    ref, q = table_name(part, q + 1, dialect)
    rcols, q = name_list(part, q, dialect)
    return {"name": cname, "cols": cols, "ref": ref, "rcols": rcols}


COL_END = {"NOT", "NULL", "DEFAULT", "PRIMARY", "AUTO_INCREMENT", "GENERATED", "CHECK", "UNIQUE",
           "REFERENCES", "COMMENT"}


def parse_column(part, dialect):
    name = fold(part[0], dialect)
    i = 1
    typ = []
    while i < len(part) and not (part[i].kind == "word" and part[i].up in COL_END):
        typ.append(part[i].text)
        i += 1
    col = {"name": name, "type": _type_text(typ), "null": True, "autoinc": False}
    while i < len(part):
        u = part[i].up
        if u == "NOT":
            col["null"] = False
            i += 2
        elif u == "NULL":
            i += 1
        elif u == "AUTO_INCREMENT":
            col["autoinc"] = True
            i += 1
        elif u == "DEFAULT":
            col["default"] = part[i + 1].text
            i += 2
        elif u == "GENERATED":
            j = i
            while part[j].text != "(":
                j += 1
            close = match_parens(part)[j]
            col["computed"] = untokenize(part[j + 1 : close])
            i = close + 1
            if i < len(part) and part[i].up in ("STORED", "VIRTUAL"):
                i += 1
        else:
            raise SQLSyntaxError(f"unsupported column attribute {part[i]!r}")
    return col


def _type_text(parts):
    s = ""
    for p in parts:
        if p in "(),":
            s += p
        else:
            s += (" " if s and s[-1] not in "(," else "") + (
                p if p[0] == "'" else p.upper())
    return s
