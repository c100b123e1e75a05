"""Native helper of the harnesses: tokens of a PostScript program."""


def scan(text):
    """[(kind, value)] with kind in string, hex, num, word, and { } [ ].

    Runs outside the instrumentation; a symbolic number appears in text as one
    opaque character and is kept as a number token."""
    out = []
    i, n = 0, len(text)
    while i < n:
        ch = text[i]
        if ch in " \t\r\n":
            i += 1
        elif ch == "%":
            while i < n and text[i] not in "\r\n":
                i += 1
        elif ch == "(":
            depth, s = 1, ""
            i += 1
            while True:
                ch = text[i]
                i += 1
                if ch == "\\":
                    if text[i] in "01234567":
                        o = ""
                        while len(o) < 3 and text[i] in "01234567":
                            o += text[i]
                            i += 1
                        s += chr(int(o, 8))
                        continue
                    s += {"n": "\n", "t": "\t", "r": "\r"}.get(text[i], text[i])
                    i += 1
                    continue
                if ch == "(":
                    depth += 1
                elif ch == ")":
                    depth -= 1
                    if not depth:
                        break
                s += ch
            out.append(("string", s))
        elif ch == "<":
            j = text.index(">", i)
            out.append(("hex", "".join(text[i + 1:j].split())))
            i = j + 1
        elif ch in "{}[]":
            out.append((ch, ch))
            i += 1
        else:
            j = i + 1
            while j < n and text[j] not in " \t\r\n%(<{}[]/":
                j += 1
            w = text[i:j]
            try:
                num = any(ord(c) >= 0xF0000 for c in w) or float(w) is not None
            except ValueError:
                num = False
            out.append(("num" if num else "word", w))
            i = j
    return out


def page(text):
    """The numbers of the bounding box comment, or None."""
    lines = text.split("\n")
    if lines[0][:4] != "%!PS" or lines[1][:15] != "%%BoundingBox: ":
        return None
    out = scan(lines[1][15:])
    return [v for k, v in out] if [k for k, v in out] == ["num"] * 4 else None


def same(a, b):
    return a == b
