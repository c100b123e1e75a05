"""Native helpers for harnesses that read text with symbolic numbers in it."""


def elems(s):
    return [ord(c) for c in s] if isinstance(s, str) else list(s.d)


def back(like, els):
    if all(type(x) is int for x in els):
        return "".join(map(chr, els))
    return type(like).make(els)


def fields(text, template):
    """The parts of text between the literal pieces of a template such as
    "{n}/{total} done"; None when the text does not have this form.  Symbolic
    characters never count as part of a literal piece."""
    import re
    lits = re.split(r"\{(\w+)\}", template)
    e = elems(text)
    out, pos, name = {}, 0, None
    for i, lit in enumerate(lits):
        if i % 2:
            name = lit
            continue
        l = [ord(c) for c in lit]
        if name is None:
            if not match(e, 0, l):
                return None
            pos = len(l)
            continue
        if i == len(lits) - 1 and not l:
            end = len(e)
        else:
            end = next((j for j in range(pos, len(e) - len(l) + 1) if match(e, j, l)), None)
            if end is None:
                return None
        out[name] = back(text, e[pos:end])
        pos = end + len(l)
    return out if pos == len(e) else None


def match(e, i, l):
    return len(e) - i >= len(l) and all(type(a) is int and a == b for a, b in zip(e[i:], l))


def screen(writes):
    """What a terminal line shows after the writes: (finished lines, the
    current line, cursor column)."""
    lines, cur, col = [], [], 0
    like = ""
    for w in writes:
        if not isinstance(w, str):
            like = w
        for x in elems(w):
            if type(x) is int and x == 13:
                col = 0
            elif type(x) is int and x == 10:
                lines.append(cur)
                cur, col = [], 0
            else:
                cur[col:col + 1] = [x]
                col += 1
    def show(l):
        while l and type(l[-1]) is int and l[-1] == 32:
            l = l[:-1]
        return back(like, l)
    return [show(l) for l in lines], show(cur), col
