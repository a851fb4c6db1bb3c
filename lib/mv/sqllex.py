"""Lexical scanner for MySQL statements, independent of mygrations.

Used by the server model to read what the code under test sends, and by the oracles to
read rendered definitions.  Follows MySQL's own lexical rules (default sql_mode).
"""


class LexError(Exception):
    pass


_ESC = {"0": "\0", "'": "'", '"': '"', "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "\\": "\\"}


class Tok:
    __slots__ = ("kind", "val", "pos")

    def __init__(self, kind, val, pos):
        self.kind = kind  # word | quoted (backtick identifier) | str | num | p
        self.val = val
        self.pos = pos

    def __repr__(self):
        return "%s:%r" % (self.kind, self.val)


def tokenize(sql):
    toks = []
    i = 0
    n = len(sql)
    while i < n:
        c = sql[i]
        if c.isspace():
            i += 1
            continue
        if c == "#":
            j = sql.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if c == "-" and sql.startswith("--", i) and (i + 2 >= n or sql[i + 2].isspace()):
            j = sql.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if c == "/" and sql.startswith("/*", i):
            j = sql.find("*/", i + 2)
            if j < 0:
                raise LexError("unterminated comment")
            i = j + 2
            continue
        if c == "`":
            j = i + 1
            out = []
            while True:
                if j >= n:
                    raise LexError("unterminated identifier")
                if sql[j] == "`":
                    if sql.startswith("``", j):
                        out.append("`")
                        j += 2
                        continue
                    break
                out.append(sql[j])
                j += 1
            toks.append(Tok("quoted", "".join(out), i))
            i = j + 1
            continue
        if c == "'" or c == '"':
            j = i + 1
            out = []
            while True:
                if j >= n:
                    raise LexError("unterminated string")
                d = sql[j]
                if d == "\\":
                    if j + 1 >= n:
                        raise LexError("unterminated string")
                    e = sql[j + 1]
                    if e in "%_":
                        out.append("\\" + e)
                    else:
                        out.append(_ESC.get(e, e))
                    j += 2
                    continue
                if d == c:
                    if j + 1 < n and sql[j + 1] == c:
                        out.append(c)
                        j += 2
                        continue
                    break
                out.append(d)
                j += 1
            toks.append(Tok("str", "".join(out), i))
            i = j + 1
            continue
        if c.isdigit() or (c == "." and i + 1 < n and sql[i + 1].isdigit()):
            j = i
            while j < n and (sql[j].isalnum() or sql[j] in "._$"):
                if sql[j] in "eE" and j + 1 < n and sql[j + 1] in "+-" and sql[i:j].replace(".", "").isdigit():
                    j += 1
                j += 1
            text = sql[i:j]
            try:
                float(text)
                if "_" in text:
                    raise ValueError
                toks.append(Tok("num", text, i))
            except ValueError:
                toks.append(Tok("word", text, i))
            i = j
            continue
        if c.isalpha() or c in "_$@" or ord(c) > 127:
            j = i
            while j < n and (sql[j].isalnum() or sql[j] in "_$@" or ord(sql[j]) > 127):
                j += 1
            word = sql[i:j]
            if word.lower() in ("b", "x", "n") and j < n and sql[j] == "'":
                k = sql.find("'", j + 1)
                if k < 0:
                    raise LexError("unterminated literal")
                body = sql[j + 1 : k]
                try:
                    int(body or "0", 2) if word.lower() == "b" else bytes.fromhex(body if word.lower() == "x" else "")
                except ValueError:
                    raise LexError("bad literal")
                if word.lower() == "b":
                    toks.append(Tok("num", str(int(body or "0", 2)), i))
                elif word.lower() == "x":
                    toks.append(Tok("str", bytes.fromhex(body).decode("latin1"), i))
                else:
                    toks.append(Tok("str", body, i))
                i = k + 1
                continue
            toks.append(Tok("word", word, i))
            i = j
            continue
        toks.append(Tok("p", c, i))
        i += 1
    return toks


def split_statements(sql):
    """Number of statements in a text, by MySQL's lexical rules (comments and quotes respected)."""
    out = []
    cur = []
    for t in tokenize(sql):
        if t.kind == "p" and t.val == ";":
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


# words MySQL (5.7/8.0) reserves: they cannot be used as identifiers without backticks
RESERVED = set(
    """accessible add all alter analyze and as asc asensitive before between bigint binary blob both by call
cascade case change char character check collate column condition constraint continue convert create cross cube cume_dist
current_date current_time current_timestamp current_user cursor database databases day_hour day_microsecond
day_minute day_second dec decimal declare default delayed delete dense_rank desc describe deterministic distinct
distinctrow div double drop dual each else elseif empty enclosed escaped except exists exit explain false fetch
first_value float float4 float8 for force foreign from fulltext function generated get grant group grouping groups
having high_priority hour_microsecond hour_minute hour_second if ignore in index infile inner inout insensitive
insert int int1 int2 int3 int4 int8 integer intersect interval into io_after_gtids io_before_gtids is iterate join
json_table key keys kill lag last_value lateral lead leading leave left like limit linear lines load localtime
localtimestamp lock long longblob longtext loop low_priority master_bind master_ssl_verify_server_cert match
maxvalue mediumblob mediumint mediumtext middleint minute_microsecond minute_second mod modifies natural not
no_write_to_binlog nth_value ntile null numeric of on optimize optimizer_costs option optionally or order out outer
outfile over partition percent_rank precision primary procedure purge range rank read reads read_write real
recursive references regexp release rename repeat replace require resignal restrict return revoke right rlike row
rows row_number schema schemas second_microsecond select sensitive separator set show signal smallint spatial
specific sql sqlexception sqlstate sqlwarning sql_big_result sql_calc_found_rows sql_small_result ssl starting
stored straight_join system table terminated then tinyblob tinyint tinytext to trailing trigger true undo union
unique unlock unsigned update usage use using utc_date utc_time utc_timestamp values varbinary varchar
varcharacter varying virtual when where while window with write xor year_month zerofill""".split()
)
