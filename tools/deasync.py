"""Source-to-source: `async` Rust to the synchronous form in which it is
executed symbolically (see DESIGN.md, "De-async").

    async fn f(&a) -> T { b }  ->  fn f(&a) -> ::kenv::ka::Done<T> { done((move || -> T { b })()) }
    async fn f(a) -> T { b }   ->  fn f(a) -> ::kenv::ka::Lazy<impl FnOnce() -> T> { lazy(move || -> T { b }) }
    e.await                    ->  e.kwait()
    dyn Stream<Item = T> + ..  ->  ::kenv::ka::Buf<T>   (the items, in order)
    Box::pin(e)                ->  ::kenv::ka::bpin(e)
    async move { b }           ->  ::kenv::ka::lazy(move || { b })
    stream! { ... yield e; }   ->  ::kenv::ka::stream_gen(move |__y| { ... __y.put(e); })

Works on the token level, so it also reaches into macro arguments.
"""
import re
import sys

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<com>//[^\n]*|/\*(?:[^*]|\*(?!/))*\*/)
 |(?P<str>b?r(?P<h>\#*)".*?"(?P=h)|[bc]?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9][A-Za-z0-9_]*(?:\.[0-9][A-Za-z0-9_]*)?)
 |(?P<p>->|=>|::|.)
''', re.X | re.S)

OPEN = {"(": ")", "[": "]", "{": "}"}


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        k = m.lastgroup if m.lastgroup != "h" else "str"
        k = next(n for n in ("ws", "com", "str", "chr", "life", "id", "num", "p") if m.group(n) is not None)
        out.append((k, m.group(0)))
        i = m.end()
    return out


def match(t, i):
    """index of the bracket closing the one at i"""
    d = 0
    while i < len(t):
        if t[i][0] == "p":
            if t[i][1] in OPEN:
                d += 1
            elif t[i][1] in ")]}":
                d -= 1
                if d == 0:
                    return i
        i += 1
    raise ValueError("unbalanced")


def skip(t, i):
    while i < len(t) and t[i][0] in ("ws", "com"):
        i += 1
    return i


def txt(t):
    return "".join(x[1] for x in t)


def tok(t, i):
    return t[i][1] if i < len(t) and t[i][0] in ("id", "p") else None


def angle(t, i):
    """index after the generics starting at `<` i"""
    d = 0
    while True:
        x = t[i]
        if x[0] == "p":
            if x[1] == "<":
                d += 1
            elif x[1] == ">":
                d -= 1
                if d == 0:
                    return i + 1
            elif x[1] in OPEN:
                i = match(t, i)
        i += 1


def conv(t, gen=False):
    out = []
    i = 0
    n = len(t)
    while i < n:
        k, x = t[i]
        if k == "p" and x == ".":
            j = skip(t, i + 1)
            if tok(t, j) == "await":
                out.append(".kwait()")
                i = j + 1
                continue
        if k == "id" and x == "async":
            j = skip(t, i + 1)
            if tok(t, j) == "unsafe":
                j = skip(t, j + 1)
            if tok(t, j) == "fn":
                s, i = conv_fn(t, j)
                out.append(s)
                continue
            mv = ""
            if tok(t, j) == "move":
                mv = "move "
                j = skip(t, j + 1)
            if tok(t, j) == "{":
                e = match(t, j)
                out.append(f"::kenv::ka::lazy({mv}|| " + conv(t[j:e + 1]) + ")")
                i = e + 1
                continue
            if tok(t, j) == "|":
                e = j + 1
                while tok(t, e) != "|":
                    e += 1
                b = skip(t, e + 1)
                if tok(t, b) == "{":
                    z = match(t, b)
                    out.append(mv + txt(t[j:e + 1]) + " ::kenv::ka::lazy(move || " + conv(t[b:z + 1]) + ")")
                    i = z + 1
                    continue
        if k == "id" and x == "dyn":
            s, e = dyn_stream(t, i)
            if s:
                out.append(s)
                i = e
                continue
        if k == "id" and x == "Box":
            j = skip(t, i + 1)
            a = skip(t, j + 1)
            b = skip(t, a + 1)
            if tok(t, j) == "::" and tok(t, a) == "pin" and tok(t, b) == "(":
                # drop a leading path
                while out and out[-1].strip() in ("std", "boxed", "::"):
                    out.pop()
                out.append("::kenv::ka::bpin")
                i = a + 1
                continue
        if k == "id" and x in ("stream", "try_stream"):
            j = skip(t, i + 1)
            if tok(t, j) == "!":
                j = skip(t, j + 1)
                if tok(t, j) in OPEN:
                    e = match(t, j)
                    # drop the macro path
                    while out and out[-1].strip() in ("async_stream", "::", ""):
                        if out[-1].strip() == "" and "async_stream" not in "".join(out[-4:]):
                            break
                        out.pop()
                    f = "stream_gen" if x == "stream" else "try_stream_gen"
                    out.append(f" ::kenv::ka::{f}(move |__y| {{ " + conv(t[j + 1:e], True) + " })")
                    i = e + 1
                    continue
        if gen and k == "id" and x == "yield":
            j = skip(t, i + 1)
            e = j
            while e < n and not (t[e][0] == "p" and t[e][1] in (";", ",", "}")):
                e = match(t, e) + 1 if t[e][0] == "p" and t[e][1] in OPEN else e + 1
            out.append("__y.put(" + conv(t[j:e], gen) + ")")
            i = e
            continue
        if k == "id" and x == "mod":
            j = skip(t, i + 1)
            b = skip(t, j + 1)
            if j < n and t[j][0] == "id" and tok(t, b) == "{":
                e = match(t, b)
                out.append(txt(t[i:b + 1]) + imp() + conv(t[b + 1:e]) + "}")
                i = e + 1
                continue
        if k == "p" and x in OPEN:
            e = match(t, i)
            out.append(x + conv(t[i + 1:e], gen) + OPEN[x])
            i = e + 1
            continue
        out.append(x)
        i += 1
    return "".join(out)


def dyn_stream(t, i):
    j = skip(t, i + 1)
    if tok(t, j) == "::":
        j = skip(t, j + 1)
    last = None
    while j < len(t) and t[j][0] == "id":
        last = t[j][1]
        j = skip(t, j + 1)
        if tok(t, j) == "::":
            j = skip(t, j + 1)
    if last != "Stream" or tok(t, j) != "<":
        return None, 0
    e = angle(t, j)
    k = skip(t, j + 1)
    if tok(t, k) != "Item":
        return None, 0
    k = skip(t, skip(t, k + 1) + 1)
    item = conv(t[k:e - 1])
    # bounds
    while tok(t, skip(t, e)) == "+":
        e = skip(t, skip(t, e) + 1)
        if t[e][0] == "life":
            e += 1
            continue
        while e < len(t) and (t[e][0] == "id" or tok(t, e) == "::"):
            e += 1
    return f"::kenv::ka::Buf<{item}>", e


def imp():
    return " #[allow(unused_imports)] use ::kenv::ka::KWait as _; "


def conv_fn(t, i):
    """t[i] is `fn` of an async fn"""
    j = skip(t, i + 1)          # name
    j = skip(t, j + 1)
    if tok(t, j) == "<":
        j = skip(t, angle(t, j))
    assert tok(t, j) == "("
    e = match(t, j)
    head = txt(t[i:e + 1])
    # nothing borrowed: can be run later (e.g. handed to `spawn`)
    owned = not any(x == ("p", "&") for x in t[j:e])
    j = skip(t, e + 1)
    ret = "()"
    if tok(t, j) == "->":
        b = j = skip(t, j + 1)
        while not (tok(t, j) in ("{", ";", "where")):
            j = match(t, j) + 1 if tok(t, j) in ("(", "[") else (angle(t, j) if tok(t, j) == "<" else j + 1)
        ret = txt(t[b:j]).strip()
    wh = ""
    if tok(t, j) == "where":
        b = j
        while not (tok(t, j) in ("{", ";")):
            j += 1
        wh = " " + txt(t[b:j])
    sig = f"{head} -> ::kenv::ka::Done<{ret}>{wh}"
    if tok(t, j) == ";":
        return sig + ";", j + 1
    z = match(t, j)
    body = conv(t[j:z + 1])
    if owned and not re.search(r"\bimpl\b|&|<'", ret):
        return (f"{head} -> ::kenv::ka::Lazy<impl FnOnce() -> {ret}>{wh} {{ #[allow(unreachable_code, unused_mut, unused_braces)] "
                f"::kenv::ka::lazy(move || -> {ret} {body}) }}"), z + 1
    ann = "" if re.search(r"\bimpl\b", ret) else f"-> {ret} "
    return f"{sig} {{ #[allow(unreachable_code, unused_mut, unused_braces)] ::kenv::ka::done((move || {ann}{body})()) }}", z + 1


def transform(src):
    t = lex(src)
    # leading inner attributes and docs stay in front
    i = 0
    last = 0
    while i < len(t):
        if t[i][0] in ("ws", "com"):
            i += 1
            continue
        if tok(t, i) == "#":
            j = skip(t, i + 1)
            if tok(t, j) == "!":
                j = skip(t, j + 1)
                i = match(t, j) + 1
                last = i
                continue
        break
    return txt(t[:i]) + imp() + "\n" + conv(t[i:])


if __name__ == "__main__":
    for f in sys.argv[1:]:
        s = open(f).read()
        open(f, "w").write(transform(s))
