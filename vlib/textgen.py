"""Arbitrary source texts: random lines of a loose grammar, mutated programs, stress shapes."""
import re
from . import anyprog, gen as G, noise

SMALL = [G.Cfg(main=(1, 4), prelude=(0, 3), body=(1, 2), funcs=(0, 2), blocks=(0, 2), structs=(0, 2), consts=(0, 2), depth=1, nest=2,
               stmts=anyprog.STM, comments=0.1, strange_names=0.2, budget=20),
         G.Cfg(main=(0, 2), prelude=(0, 2), body=(0, 2), funcs=(1, 3), blocks=(0, 1), structs=(0, 1), consts=(0, 1), depth=1, nest=1,
               router=0.8, stmts=anyprog.STM, comments=0.1, strange_names=0.2, budget=20)]

WORDS = ["if", "elif", "else", "while", "for", "in", "end", "block", "func", "switch", "jump", "break", "return", "exit", "assert", "teal", "struct",
         "router", "inner_txn", "inner_group", "const", "box", "not", "int", "bytes", "bigint", "addr", "byte", "uint64", "uint8", "bytes[4]", "bytes[0]",
         "Foo", "foo", "bar", "x", "y", "_", "FOO", "Txn", "Gtxn", "Itxn", "Global", "Txn.Sender", "Gtxn[0].Fee", "Gtxn[+1].Amount", "Gtxn[x].Fee",
         "Txn.ApplicationArgs[0]", "Itxn.Logs[0]", "Txn.Accounts[x]", "Global.Round", "0", "1", "18446744073709551615", "18446744073709551616", "007", "0x",
         "0xab", "0xabc", '""', '"a"', '"a\\"', '"\\x4"', "'a'", '"\\q"', '"\\x"', '"a\\u12"', '"\\xzz"', '"unterminated', "+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "&",
         "|", "^", "!", "~", "b+", "b==", "b/", "b|", "(", ")", "[", "]", "{", "}", ",", ":", "=", ".", ";", "//", "#", "@public", "@public()",
         "@public(OnCompletion=NoOp)", "@public(OnCompletion=Nope)", "@", "\\", "#pragma version 8", "#pragma", "#define", "log", "itob", "sha256",
         "concat", "Cast", "Concat", "SizeOf", "Address", "Convert", "ToBytes", "FromBytes", "Rpad", "Lpad", "EnsureType", "UncheckedCast", "Error",
         "ARC28Event", "Box", "CreateBox", "OpenBox", "box<Foo>", "box<", "<", ">", "->", "push", "pop", "app_global_get", "app_global_put", "substring",
         "extract", "divmodw", "mulw", "addw", "asset_holding_get", "Fee", "TypeEnum: Pay", "TypeEnum", "ApplicationArgs[0]", "tealish", "é", "\u2028", "\x00",
         "\ufeff", "\t", "\x0b", "\r", "١", "ﬁ", "𝕏", "\ud7ff", "-1", "1.5", "1e9", "None", "True"]
LINES = ["{}", "int x = {}", "bytes y = {}", "x = {}", "x, y = {}", "{} = {}", "{} {} = {}", "if {}:", "if not {}:", "elif {}:", "else:", "end", "while {}:",
         "for {} in {}:{}:", "for i in 0:{}:", "block {}:", "func {}({}) {}:", "func foo(a: {}) int:", "func foo() {}:", "return {}", "return {}, {}", "exit({})",
         "assert({})", 'assert({}, "{}")', "switch {}:", "{}: {}", "0: {}", "jump {}", "break", "log({})", "push({})", "int x = pop({})", "teal:", "struct {}:",
         "struct Foo:", "{}: int", "a: {}", "inner_txn:", "inner_group:", "{}: {}", "Fee: {}", "router:", "@public({})", "@public", "const {} {} = {}",
         "const int FOO = {}", "const bytes FOO = {}", "#pragma {}", "#{}", "# {}", "Foo f = {}", "f.{} = {}", "f.a = {}", "box<{}> b = {}", "box<Foo> b = Box({})",
         "box<Foo> b = CreateBox({})", "{}({}, {})", "int z = {}({}, {})", "int x = {} + {}", "error({})", "Error({})", "{} # {}", "", "    ", "int x", "int {}",
         "bytes[{}] z = {}", "_ , {} = {}", "box_put({}, {})"]


def word(ch):
    k = ch.int(0, 9)
    if k < 7:
        return ch.choice(WORDS)
    if k == 7:
        return ch.choice(["x", "foo"]) + ch.choice(["(", "[", ".", " + ", "("]) + ch.choice(WORDS) + ch.choice([")", "]", "", ")", "", ", 1)"])
    if k == 8:
        return "(" + ch.choice(WORDS) + " " + ch.choice(["+", "==", "&&", "b+", "<"]) + " " + ch.choice(WORDS) + ")"
    return "".join(chr(ch.choice([ch.int(32, 126), ch.int(0, 255), ch.int(0, 0xd7ff), ch.int(0xe000, 0x10ffff)])) for _ in range(ch.int(0, 5)))


def line(ch):
    s = ch.choice(LINES)
    while "{}" in s:
        s = s.replace("{}", word(ch).replace("{}", ""), 1)
    return s


def expression(ch, n):
    if n == 0 or ch.bool(0.3):
        return word(ch)
    k = ch.int(0, 4)
    sub = lambda: expression(ch, n - 1)
    if k == 0:
        return f"({sub()} {ch.choice(['+', '==', '&&', 'b+', '<', '/', 'b=='])} {sub()})"
    if k == 1:
        return f"{sub()} {ch.choice(['+', '==', '&&', 'b+', '<', '/', 'b=='])} {sub()}"
    if k == 2:
        return ch.choice(["!", "~"]) + sub()
    if k == 3:
        return ch.choice(["Gtxn", "Itxn", "Txn", "x"]) + f"[{sub()}]" + ch.choice(["", ".Fee", ".Sender", ".ApplicationArgs[0]"])
    return ch.choice(["foo", "itob", "sha256", "Cast", "Concat", "Rpad", "Convert", "ToBytes", "SizeOf", "EnsureType", "pop", "divmodw", "extract", "app_global_get", "UncheckedCast"]) \
        + "(" + ", ".join(sub() for _ in range(ch.int(0, 3))) + ")"


def random_lines(ch):
    return [line(ch) for _ in range(ch.int(1, 8))]


def random_text(ch):
    return "".join(ch.choice(["\n", " ", word(ch)]) if ch.bool(0.7) else chr(ch.choice([ch.int(0, 127), ch.int(0, 0xd7ff)])) for _ in range(ch.int(0, 30)))


def kind(t):
    if t[0].isalpha() or t[0] == "_":
        if t in WORDS[:23]:
            return "kw " + t
        return "type" if t in ("int", "bytes", "uint8", "uint64", "bigint", "addr", "byte") else "name" if t[0].islower() or t[0] == "_" else "Name"
    return "num" if t[0].isdigit() else "str" if t[0] in "'\"" else "op" if t in "+-*/%<>=!&|^~" else "punct"


def mutate(ch, src, other=None):
    """-> (text, kinds)"""
    kinds = []
    for _ in range(ch.weighted([(5, 1), (3, 2), (1, 4)])):
        ls = src.split("\n")
        k = ch.weighted([(3, "drop line"), (2, "double line"), (2, "swap lines"), (2, "move line"), (3, "new line"), (5, "token"), (3, "drop token"),
                         (2, "double token"), (2, "insert token"), (2, "cut"), (2, "char"), (1, "splice"), (1, "join"), (1, "split"), (2, "word pair"), (12, "same class"), (3, "escape"), (4, "value")])
        kinds.append(k)
        i = ch.int(0, len(ls) - 1)
        if k == "drop line":
            ls.pop(i)
        elif k == "double line":
            ls.insert(i, ls[i])
        elif k == "swap lines":
            j = ch.int(0, len(ls) - 1)
            ls[i], ls[j] = ls[j], ls[i]
        elif k == "move line":
            l = ls.pop(i)
            ls.insert(ch.int(0, len(ls)), l)
        elif k == "new line":
            ls.insert(i, line(ch))
        elif k in ("token", "drop token", "double token", "insert token", "word pair"):
            ts = noise.tokens(ls[i])
            at = [j for j, t in enumerate(ts) if not t.isspace()]
            if at:
                j = ch.choice(at)
                if k == "token":
                    ts[j] = word(ch)
                elif k == "drop token":
                    ts[j] = ""
                elif k == "double token":
                    ts[j] = ts[j] + ch.choice(["", " "]) + ts[j]
                elif k == "word pair":
                    o = ch.choice(at)
                    ts[j], ts[o] = ts[o], ts[j]
                else:
                    ts[j] = ts[j] + ch.choice([" ", ""]) + word(ch)
                ls[i] = "".join(ts)
        elif k == "same class":
            pool = {}
            for t in noise.TOK.findall(src) + ["0", "1", "256", '"a"', "x", "a", "FOO", "Foo", "int", "bytes", "bytes[8]", "uint8", "+", "==", "b+", "Sender", "Fee"]:
                pool.setdefault(kind(t), []).append(t)
            ts = noise.tokens(ls[i])
            at = [j for j, t in enumerate(ts) if not t.isspace() and not kind(t).startswith("kw") and t not in "(),.:[]"]
            if at:
                j = ch.choice(at)
                ts[j] = ch.choice(sorted(set(pool.get(kind(ts[j]), ["x"]))))
                ls[i] = "".join(ts)
        elif k == "escape":
            # an escape that may mean nothing, somewhere inside a string
            at = [m.start() + o for m in re.finditer(r'"(?:[^"\\\n]|\\.)*"', src) for o in range(1, len(m.group()))]
            if at:
                p = ch.choice(at)
                src = src[:p] + ch.choice(["\\q", "\\", "\\x4", "\\xzz", "\\u12", "\\0", "\\'", "\\x00", "\\n", "\\\\", "\\\"", "//", "#", "é", "\x7f"]) + src[p:]
                continue
        elif k == "value":
            # an expression in place of a whole operand, argument or returned value
            m = [m for m in re.finditer(r"(?<=[=(,:])\s*([^\s,()=:#][^,()=:#]*?)(?=\s*(?:[,)#]|$))|(?<=return )([^,#]+)", ls[i])]
            if m:
                m = ch.choice(m)
                ls[i] = ls[i][:m.start()] + " " + expression(ch, ch.int(0, 2)) + ls[i][m.end():]
        elif k == "cut":
            src = src[:ch.int(0, max(0, len(src) - 1))]
            continue
        elif k == "char":
            p = ch.int(0, max(0, len(src) - 1))
            c = chr(ch.choice([ch.int(32, 126), ch.int(0, 255), ch.int(0, 0xd7ff)]))
            src = src[:p] + c + src[p + ch.int(0, 1):]
            continue
        elif k == "splice" and other:
            o = other.split("\n")
            a = ch.int(0, len(o) - 1)
            ls[i:i] = o[a:a + ch.int(1, 6)]
        elif k == "join" and i + 1 < len(ls):
            ls[i:i + 2] = [ls[i] + ch.choice(["", " ", "; ", ", "]) + ls[i + 1].strip()]
        elif k == "split" and ls[i]:
            p = ch.int(0, len(ls[i]) - 1)
            ls[i:i + 1] = [ls[i][:p], ls[i][p:]]
        src = "\n".join(ls)
    return src, kinds


# shapes whose size can grow: each must take time proportionate to its size
NEST = {
    "parens": lambda n: "exit(" + "(" * n + "1" + ")" * n + ")",
    "open parens": lambda n: "exit(" + "(" * n,
    "sums in parens": lambda n: "exit(" + "(1 + " * n + "1" + ")" * n + ")",
    "left sums": lambda n: "exit(" + "(" * n + "1" + " + 1)" * n + ")",
    "unary": lambda n: "exit(" + "!" * n + "1)",
    "unary parens": lambda n: "exit(" + "!(" * n + "1" + ")" * n + ")",
    "calls": lambda n: "bytes x = " + "sha256(" * n + '"a"' + ")" * n + "\nexit(1)",
    "open calls": lambda n: "bytes x = " + "sha256(" * n,
    "brackets": lambda n: "bytes x = " + "Txn.ApplicationArgs[" * n + "0" + "]" * n,
    "groups": lambda n: "int x = " + "Gtxn[" * n + "0" + "].Fee" * n,
    "sum": lambda n: "exit(" + " + ".join(["1"] * n) + ")",
    "bad sum": lambda n: "exit(" + "1 + " * n + ")",
    "string": lambda n: 'log("' + "a" * n + '")\nexit(1)',
    "open string": lambda n: 'log("' + "a" * n,
    "escapes": lambda n: 'log("' + '\\"' * n + '")\nexit(1)',
    "quotes": lambda n: "log(" + '"' * n + ")",
    "single quotes": lambda n: "log(" + "'" * n + ")",
    "name": lambda n: "int " + "a" * n + " = 1\nexit(1)",
    "names": lambda n: ", ".join("abcdefgh"[i % 8] for i in range(n)) + " = foo()",
    "typed names": lambda n: ", ".join(f"int v{i}" for i in range(n)) + " = foo()",
    "words": lambda n: " ".join(["foo"] * n),
    "commas": lambda n: "foo(" + "," * n + ")",
    "assigns": lambda n: " = ".join(["x"] * n),
    "spaces": lambda n: "exit(" + " " * n + "1)",
    "inner spaces": lambda n: "int x =" + " " * n + "1" + " " * n + "+ 1" + " " * n + "\nexit(x)",
    "tabs": lambda n: "if" + "\t" * n + "1:",
    "digits": lambda n: "exit(" + "9" * n + ")",
    "zeros": lambda n: "exit(" + "0" * n + "1)",
    "hex": lambda n: "const bytes FOO = 0x" + "ab" * n + "\nexit(1)",
    "hexodd": lambda n: "const bytes FOO = 0x" + "ab" * n + "g\nexit(1)",
    "blanks": lambda n: "\n" * n + "exit(1)",
    "comments": lambda n: "# x\n" * n + "exit(1)",
    "asserts": lambda n: "assert(1)\n" * n + "exit(1)",
    "logs": lambda n: 'log("a")\n' * n + "exit(1)",
    "ifs": lambda n: "if 1:\n" * n + "log(\"a\")\n" + "end\n" * n + "exit(1)",
    "open ifs": lambda n: "if 1:\n" * n,
    "whiles": lambda n: "while 1:\n" * n + "break\n" + "end\n" * n + "exit(1)",
    "fors": lambda n: "for _ in 0:1:\n" * n + "log(\"a\")\n" + "end\n" * n + "exit(1)",
    "elifs": lambda n: "if 1:\nlog(\"a\")\n" + "elif 1:\nlog(\"a\")\n" * n + "end\nexit(1)",
    "blocks": lambda n: "exit(1)\n" + "".join(f"block b{i}:\nexit(1)\n" for i in range(n)) + "end\n" * n,
    "siblings": lambda n: "exit(1)\n" + "".join(f"block b{i}:\nexit(1)\nend\n" for i in range(n)),
    "functions": lambda n: "exit(1)\n" + "".join(f"func f{i}():\nreturn\nend\n" for i in range(n)),
    "function chain": lambda n: "exit(f0())\n" + "".join(f"func f{i}() int:\nreturn {f'f{i + 1}()' if i + 1 < n else 1}\nend\n" for i in range(n)),
    "parameters": lambda n: "exit(1)\nfunc f(" + ", ".join(f"a{i % 9}{'b' * (i // 9 % 30)}: int" for i in range(n)) + "):\nreturn\nend",
    "returns": lambda n: "exit(1)\nfunc f() " + ", ".join(["int"] * n) + ":\nreturn " + ", ".join(["1"] * n) + "\nend",
    "return parens": lambda n: "exit(1)\nfunc f() int:\nreturn " + "(" * n + "1" + ")" * n + "\nend",
    "return open": lambda n: "exit(1)\nfunc f() int:\nreturn " + "f(" * n + "\nend",
    "options": lambda n: "switch 1:\n" + "".join(f"{i}: b\n" for i in range(n)) + "end\nblock b:\nexit(1)\nend",
    "fields": lambda n: "struct Foo:\n" + "".join(f"a{i}: int\n" for i in range(n)) + "end\nexit(1)",
    "constants": lambda n: "".join(f"const int A{i} = 1\n" for i in range(n)) + "exit(A0)",
    "variables": lambda n: "".join(f"int v{i} = 1\n" for i in range(min(n, 254))) + "exit(v0)",
    "arguments": lambda n: "foo(" + ", ".join(["1"] * n) + ")",
    "concat": lambda n: "log(Concat(" + ", ".join(['"a"'] * n) + "))\nexit(1)",
    "colons": lambda n: "for i in " + ":" * n,
    "tags": lambda n: "@public(" + "OnCompletion=NoOp, " * n + ")\nfunc f():\nreturn\nend",
    "message": lambda n: 'assert(1, "' + "a, " * n + '")\nexit(1)',
    "bad message": lambda n: 'assert(1, "' + 'a", "' * n + ")\nexit(1)",
    "hashes": lambda n: "#" * n,
    "slashes": lambda n: "exit(1)" + "/" * n,
    "inner txns": lambda n: "inner_txn:\nFee: 0\nend\n" * n + "exit(1)",
    "inner fields": lambda n: "inner_txn:\n" + "Fee: 0\n" * n + "end\nexit(1)",
    "group": lambda n: "inner_group:\n" + "inner_txn:\nFee: 0\nend\n" * n + "end\nexit(1)",
    "teal": lambda n: "teal:\n" + "int 1\n" * n + "end\nexit(1)",
    "routes": lambda n: "router:\n" + "".join(f"f{i}\n" for i in range(n)) + "end\n" + "".join(f"@public()\nfunc f{i}():\nreturn\nend\n" for i in range(n)),
    "dots": lambda n: "x" + ".a" * n + " = 1",
    "index": lambda n: "int x = Txn.Accounts" + "[0]" * n,
    "bars": lambda n: "exit(" + "1 | " * n + "1)",
    "commas in return": lambda n: "exit(1)\nfunc f() int:\nreturn " + ",(" * n + "\nend",
    "return quotes": lambda n: "exit(1)\nfunc f() int:\nreturn " + '"a' * n + "\nend",
    "unicode": lambda n: "exit(" + "é" * n + ")",
    "box": lambda n: "box<" * n + "Foo" + ">" * n + " b = Box(\"a\")",
}
