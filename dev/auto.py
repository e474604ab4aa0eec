#!/usr/bin/env python3
"""Development tool: generates one-token mutants of the non-test code of the given files as a mutant list for dev/mut.py (expected: "*", any check)."""
import re, sys, random

OPS = [(r"(?<![<>=!-])<=(?!=)", "<"), (r"(?<![<>=!-])>=(?!=)", ">"), (r" < ", " <= "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* (?=[\w(])", " + "), (r" % ", " / "), (r" \+= ", " -= "), (r" -= ", " += "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if !", "if "), (r"\bif (?!let|!)", "if !"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
       (r"(?<![\w.\"'#])(\d+)(?![\w.\"'])", lambda m: str(int(m.group(1)) + 1)), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
       (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"\.\.=", ".."), (r"\.\.(?=[\w(])(?!=)", "..="), (r"\.is_empty\(\)", ".len() == 1"), (r"\.skip\(", ".take("), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.into_iter\(\)", ".into_iter().skip(1)"),
       (r"\.to_ascii_lowercase\(\)", ".to_ascii_uppercase()"), (r"_lowercase\(", "_uppercase("), (r"_uppercase\(", "_lowercase("), (r"'(\w)'", lambda m: "'%s'" % chr(ord(m.group(1)) ^ 1)),
       (r"u32", "u16"), (r"i64", "i32"), (r"\bSome\((\w+)\)(?! =)", "None"), (r"return ([^;]+);", "")]


def code(src):
    i = src.find("#[cfg(test)]\nmod")
    i = i if i >= 0 else src.find("#[cfg(test)]\npub(crate) mod")
    return src[:i] if i >= 0 else src


def main():
    out = []
    root = "/repo/"
    n = int(sys.argv[1])
    random.seed(int(sys.argv[2]))
    for f in sys.argv[3:]:
        src = open(root + f).read()
        c = code(src)
        lines = c.split("\n")
        skip = False
        depth = 0
        for li, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#[cfg(test)]"):
                skip = True
            if skip:
                depth += l.count("{") - l.count("}")
                if depth <= 0 and ("}" in l or s.endswith(";")):
                    skip = False
                    depth = 0
                continue
            if not s or s.startswith(("//", "use ", "#", "pub mod", "mod ")) or "debug_assert" in s:
                continue
            cand = []
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    if "//" in l[:m.start()]:
                        continue
                    cand.append(l[:m.start()] + (m.expand(rep) if isinstance(rep, str) and "\\" in rep else rep if isinstance(rep, str) else rep(m)) + l[m.end():])
            if s.endswith(";") and not s.startswith(("let ", "return", "const", "static", "type", "pub ", "}", ")", "break", "continue")) and s.count("(") == s.count(")"):
                cand.append(re.match(r"\s*", l).group(0) + "{}")
            for k, new in enumerate(cand):
                a = 0
                while a < 12 and src.count("\n".join(lines[max(0, li - a):li + 1])) > 1:
                    a += 1
                pre = lines[max(0, li - a):li]
                old = "\n".join(pre + [l, ""])
                if src.count(old) != 1:
                    continue
                out.append(("%s:%d.%d %s => %s" % (f.split("/src/")[-1], li + 1, k, s[:60], new.strip()[:60]), "*", f, old, "\n".join(pre + [new, ""])))
    random.shuffle(out)
    if n:
        out = out[:n]
    sys.stdout.write("M = %r\n" % (out,))
    sys.stderr.write("%d mutants\n" % len(out))


main()
