"""Text-level layout: tokens of a source line, noise that has no meaning, and a normal form."""
import re

TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\s+|[A-Za-z_0-9]+|.')


def tokens(line):
    return TOK.findall(line)


def squeeze(line):
    """the line without layout and trailing comment: strings kept, single quotes made double"""
    line = line.strip()
    if line.startswith("#"):
        return line
    out = ""
    for t in tokens(line):
        if t == "#":
            break
        if t.isspace():
            # words stay apart
            if out and (out[-1].isalnum() or out[-1] == "_"):
                out += " "
            continue
        if t[0] == "'" and len(t) > 1:
            t = '"' + re.sub(r'\\\'|"', lambda m: "'" if m.group() != '"' else '\\"', t[1:-1]) + '"'
        if out.endswith(" ") and not (t[0].isalnum() or t[0] == "_"):
            out = out[:-1]
        out += t
    return out.strip()


def squeezed(text):
    return [s for s in map(squeeze, text.split("\n")) if s]


def pad(ch):
    return ch.choice(["", " ", "  ", "   ", "\t"])


def loosen(ch, line):
    """more space within the expressions and argument lists of a line"""
    out, depth, rhs, prev = "", 0, line.startswith("return "), ""
    toks = tokens(line)
    for i, t in enumerate(toks):
        if t == "(":
            depth += 1
            out += t
            if i + 1 < len(toks) and toks[i + 1] != ")":
                out += pad(ch)
        elif t == ")":
            depth -= 1
            out += ("" if prev == "(" else pad(ch)) + t
        elif t == "," and depth:
            out += pad(ch) + t
        elif t.isspace() and prev == "," and depth:
            out += ch.choice([" ", "", "  ", "\t"])
        elif t.isspace() and depth:
            out += t + pad(ch)
        elif t == "=" and prev == " " and not depth and not rhs and i + 1 < len(toks) and toks[i + 1] == " ":
            rhs = True
            out += t
        elif t == " " and prev == "=" and rhs is True:
            out += t + pad(ch)
            rhs = 2
        elif t.isspace() and rhs == 2:
            out += t + pad(ch)
        else:
            out += t
        prev = t
    return out


PLAIN = re.compile(r"@|#|(struct|router|teal|func|block|const|jump|for|else|end|break|box)\b")


def noise(ch, src, level=1.0):
    """-> (text, kinds).  Every line keeps its meaning; comments and blank lines are not touched."""
    out, kinds = [], set()
    raw = False         # lines of struct, teal and router bodies
    for line in src.split("\n"):
        s = line.strip()
        body = s
        if raw:
            if s == "end":
                raw = False
        elif re.fullmatch(r"(struct \w+|teal|router):", s):
            raw = True
        elif s and not PLAIN.match(s) and "{" not in s and ch.bool(0.6 * level):
            m = re.fullmatch(r'(assert\(.*)(, "(?:\\.|[^"\\])*"\))', s)
            body = loosen(ch, m.group(1)) + m.group(2) if m else loosen(ch, s)
            if body != s:
                kinds.add("spacing")
        if ch.bool(0.4 * level):
            body = " " * ch.choice([0, 1, 2, 3, 7]) + body if ch.bool(0.8) else "\t" * ch.int(0, 2) + body
            kinds.add("indent")
        else:
            body = line[:len(line) - len(line.lstrip())] + body
        if s and ch.bool(0.2 * level):
            body += ch.choice([" ", "   ", "\t", "  \t "])
            kinds.add("trailing")
        if s and not s.startswith("#") and not raw and s != "end" and ch.bool(0.06 * level) and "'" not in s:
            body += ch.choice([" # note", "  #x", " # if: (", ' # "q', " ## // end"])
            kinds.add("comment")
        out.append(body)
    return "\n".join(out), kinds
