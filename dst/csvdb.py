"""Independent reader of the calibration database file and row comparison."""
import csv
import io
import os

FLOATS = {"MJD", "EXPTIME", "Date Created", "EMGAIN_C", "EXCAMT"}
INTS = {"Files Used", "OBSNUM", "NAXIS1", "NAXIS2"}
COLUMNS = ["Filepath", "Type", "MJD", "EXPTIME", "Files Used", "Date Created", "Hash", "DRPVERSN", "OBSNUM",
           "NAXIS1", "NAXIS2", "OPMODE", "EMGAIN_C", "EXCAMT"]


class BadDB(Exception):
    pass


def _conv(col, s):
    if col in FLOATS:
        return float(s) if s != "" else float("nan")
    if col in INTS:
        return int(float(s))
    return s


def read(path):
    """path -> {filepath: row}; None if the file does not exist; BadDB if it is not a complete database."""
    if not os.path.exists(path):
        return None
    with open(path, newline="") as f:
        return parse(f.read())


def parse(raw):
    """The text of a database file -> {filepath: row}."""
    if not raw:
        raise BadDB("database file is empty")
    if not raw.endswith("\n"):
        raise BadDB("database file ends in the middle of a row")
    rows = list(csv.reader(io.StringIO(raw, newline="")))
    head = rows[0]
    if sorted(head) != sorted(COLUMNS):
        raise BadDB("bad header row %r" % (head,))
    out = {}
    for r in rows[1:]:
        if len(r) != len(head):
            raise BadDB("row with %d of %d fields" % (len(r), len(head)))
        try:
            d = {c: _conv(c, v) for c, v in zip(head, r)}
        except ValueError as e:
            raise BadDB("unreadable row: %s" % e)
        if d["Filepath"] in out:
            raise BadDB("two rows for %s" % os.path.basename(d["Filepath"]))
        out[d["Filepath"]] = d
    return out


def from_frame(df):
    """A handle's in-memory table in the same form."""
    out = {}
    for _, r in df.iterrows():
        d = {}
        for c in COLUMNS:
            v = r[c]
            if c in FLOATS:
                d[c] = float(v)
            elif c in INTS:
                d[c] = int(v)
            else:
                d[c] = "" if v is None or v != v else str(v)
        if d["Filepath"] in out:
            raise BadDB("two rows for %s in memory" % os.path.basename(d["Filepath"]))
        out[d["Filepath"]] = d
    return out


def same_row(a, b):
    for c in COLUMNS:
        x, y = a[c], b[c]
        if c in FLOATS:
            if x != x and y != y:
                continue
            if abs(x - y) > 1e-9 * max(1.0, abs(x), abs(y)):
                return c
        elif x != y:
            return c
    return None


def diff(got, want):
    """None if equal, else a short description."""
    miss = sorted(set(want) - set(got))
    if miss:
        return "missing row for %s" % os.path.basename(miss[0])
    extra = sorted(set(got) - set(want))
    if extra:
        return "unexpected row for %s" % os.path.basename(extra[0])
    for k in sorted(want):
        c = same_row(got[k], want[k])
        if c:
            return "row for %s: %s is %r, expected %r" % (os.path.basename(k), c, got[k][c], want[k][c])
    return None
