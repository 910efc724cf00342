"""The dictionary: numbers and words that occur in the library's sources, for the generators to use
now and then, as a fuzzer does. What they mean there is of no concern, and nothing is expected of them."""
import glob, os, re

TOKEN = re.compile(r"""
    (?P<skip> //[^\n]* | /\*.*?\*/ )
  | (?P<raw> \bb?r(?P<h>\#+)"(?P<rb>.*?)"(?P=h) | \bb?r"(?P<rc>[^"]*)" )
  | (?P<str> b?"(?P<sb>(?:\\.|[^"\\])*)" )
  | (?P<chr> b?'(?P<cb>\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\\n])' )
  | (?P<num> \b(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?\b )
  | (?P<word> \b[A-Za-z_][A-Za-z0-9_]*\b )
  | (?P<op> << | \* | \.[0-9]+ )
""", re.X | re.S)


def number(t):
    t = re.sub(r"[ui](8|16|32|64|128|size)$", "", t).replace("_", "") if not t.startswith("0x") else re.sub(r"[ui](8|16|32|64|128|size)$", "", t).replace("_", "")
    try:
        return int(t, 0) if t.startswith("0") and len(t) > 1 and t[1] in "xbo" else int(t)
    except ValueError:
        return None


def scan(text):
    nums, words = set(), set()
    before = []  # the last tokens: numbers and operators
    for m in TOKEN.finditer(text):
        k = m.lastgroup if m.lastgroup not in ("h", "rb", "rc", "sb", "cb") else None
        if m.group("skip"): continue
        if m.group("raw") or m.group("str"):
            s = m.group("rb") or m.group("rc") or m.group("sb") or ""
            # words of a short text, without what is to be filled in
            if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]{0,23}", s): words.add(s)
            before = []
        elif m.group("chr"):
            c = m.group("cb")
            try:
                nums.add(int(c[3:-1], 16) if c.startswith("\\u") else int(c[2:], 16) if c.startswith("\\x") else ord(c) if len(c) == 1 else 0)
            except ValueError:
                pass
            before = []
        elif m.group("num"):
            n = number(m.group("num"))
            if n is None: continue
            nums.add(n)
            if len(before) >= 2 and before[-1] in ("<<", "*") and isinstance(before[-2], int):
                v = before[-2] << n if before[-1] == "<<" and n < 128 else before[-2] * n if before[-1] == "*" else 0
                nums.add(v)
                before = before[:-2] + [v]
            else:
                before = [n]
        elif m.group("op") in ("<<", "*"):
            before.append(m.group("op"))
        else:
            before = []
    return nums, words


def build(repo):
    nums, words = set(), set()
    for crate in ("binschema", "binschema_derive"):
        for f in sorted(glob.glob(os.path.join(repo, crate, "src", "**", "*.rs"), recursive=True)):
            try:
                n, w = scan(open(f, encoding="utf-8").read())
            except (OSError, UnicodeDecodeError):
                continue
            nums |= n
            words |= w
    nums = sorted(n for n in nums if 7 < n < 1 << 128)
    words = sorted(words)
    return "n=%s w=%s" % (",".join(map(str, nums)), ",".join(words))


def words(d):
    m = re.search(r"\bw=(\S+)", d)
    return m.group(1).split(",") if m else []


def numbers(d):
    m = re.search(r"\bn=(\S+)", d)
    return [int(x) for x in m.group(1).split(",")] if m else []


if __name__ == "__main__":
    print(build("/repo"))
