#!/usr/bin/env python3
"""Mechanical extraction of real /repo functions into a Verus file.

A template (/verif/verus/*.vspec) is Verus text with blocks of the form

    //@FN name [in "impl header"] from path/in/repo.rs
    //@ret r                      name the return value
    //@contract requires ... ensures ...      (may repeat; lines are concatenated)
    //@start <ghost text>         inserted right after the opening brace (proof blocks only)
    //@loop k <ghost text>        inserted before the body of the k-th loop (invariants only)
    //@body k <ghost text>        inserted at the start of the body of the k-th loop (proof blocks only)
    //@sub 'from' => 'to'         dialect rewrite, applied literally; must be listed in DESIGN.md
    //@END

    //@GSUB 'regex' => 'text'     dialect rewrite of every extracted function below (type
                                  parameters to the type at which the contract is proved)

Each block is replaced by the function's text as it is in /repo now (comments and attributes
dropped), with the ghost text spliced in.  Nothing executable is written by hand: a function
that cannot be found raises LostAnchor.
"""
import re, sys, os

class LostAnchor(Exception):
    pass

def strip_comments(src):
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
        elif src.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if src.startswith("/*", i): d += 1; i += 2
                elif src.startswith("*/", i): d -= 1; i += 2
                else: i += 1
        elif c == '"':
            j = i + 1
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            out.append(src[i:j + 1]); i = j + 1
        elif c == "'" and re.match(r"'(\\.[^']*|[^'\\])'", src[i:i + 12]):
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:i + 12])
            out.append(m.group(0)); i += m.end()
        else:
            out.append(c); i += 1
    return "".join(out)

def match_brace(s, i):
    """index just past the brace group opening at s[i]"""
    op, cl = s[i], {"{": "}", "(": ")", "[": "]"}[s[i]]
    d = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == op: d += 1
        elif c == cl:
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise LostAnchor("unbalanced braces")

def scope(src, header):
    pat = re.sub(r"\s+", r"\\s+", re.escape(re.sub(r"\s+", " ", header)).replace("\\ ", " ")).replace(" ", r"\s+")
    res = []
    for m in re.finditer(pat + r"\s*(?:where[^{]*)?\{", src):
        e = match_brace(src, m.end() - 1)
        res.append(src[m.end():e - 1])
    if not res:
        raise LostAnchor(f"impl block not found: {header}")
    return res

def find_fn(src, name, header=None):
    """(signature up to the body, body with braces)"""
    if "#[cfg(test)]" in src:
        src = src[:src.index("#[cfg(test)]")]
    hits = []
    for part in (scope(src, header) if header else [src]):
        for m in re.finditer(r"(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?(?:unsafe\s+)?fn\s+" + re.escape(name) + r"\b", part):
            i = part.index("(", m.end())
            j = match_brace(part, i)
            k = part.index("{", j)
            body = part[k:match_brace(part, k)]
            if "asm!" in body:
                continue
            hits.append((part[m.start():k].rstrip(), body, part[:m.start()].count("{") - part[:m.start()].count("}")))
    if len(hits) > 1:  # the one outside of every impl block
        hits = [h for h in hits if h[2] == 0]
    if len(hits) != 1:
        raise LostAnchor(f"function {name}{' in ' + header if header else ''}: {len(hits)} candidates")
    return hits[0][:2]

def split_or_guard(body):
    """`P | Q if g => {b}` becomes `P if g => {b} Q if g => {b}` (Verus has no or-patterns with guards)"""
    pat = re.compile(r"(\([^|;{}]*\))\s*\|\s*(\([^|;{}]*?\))\s*if\s+([^;{}]*?)=>\s*\{")
    at = 0
    while True:
        m = pat.search(body, at)
        if not m:
            return body
        e = match_brace(body, m.end() - 1)
        b = body[m.end() - 1:e]
        new = f"{m.group(1)} if {m.group(3)} => {b}\n{m.group(2)} if {m.group(3)} => {b}"
        body = body[:m.start()] + new + body[e:]
        at = m.start() + len(new)

def render(sig, body, ret, contract, start, loops, subs, bodies):
    for a, b in subs:
        if a not in sig + body:
            raise LostAnchor(f"rewrite source {a!r} absent")
        sig, body = sig.replace(a, b), body.replace(a, b)
    body = split_or_guard(body)
    if ret:
        k = sig.rindex("->")
        ty = sig[k + 2:].strip()
        sig = sig[:k] + f"-> ({ret}: {ty})"
    # loops, from the last to the first so that positions stay valid
    pos = [m for m in re.finditer(r"\b(?:for\s+[^{};]+?\s+in\s+[^{};]+?|while\s+[^{};]+?|loop)\s*\{", body)]
    for k in sorted(set(loops) | set(bodies), reverse=True):
        text = loops.get(k, "")
        if k >= len(pos):
            raise LostAnchor(f"loop {k} not found")
        b = pos[k].end() - 1
        body = body[:b] + "\n" + text + "\n{" + bodies.get(k, "") + body[b + 1:]
    if start:
        body = "{\n" + start + "\n" + body[1:]
    return sig + "\n" + contract + "\n" + body

def expand(template, repo):
    out, report, gsubs = [], [], []
    lines = open(template).read().split("\n")
    i = 0
    cache = {}
    while i < len(lines):
        m = re.match(r'\s*//@FN (\w+)(?: in "([^"]+)")? from (\S+)', lines[i])
        m2 = re.match(r'\s*//@ITEM (const|struct) (\w+) from (\S+)', lines[i])
        if m2:
            kind, name, path = m2.groups()
            src = cache.setdefault(path, strip_comments(open(os.path.join(repo, path)).read()))
            mm = re.search(r"(?:pub )?" + kind + r"\s+" + name + r"\b[^;]*;", src)
            if not mm: raise LostAnchor(f"{kind} {name} not found")
            out.append(mm.group(0)); report.append(f"{path}:{kind} {name}")
            i += 1
            continue
        m3 = re.match(r'\s*//@CONSTBODY (\w+) from (\S+)', lines[i])
        if m3:
            name, path = m3.groups()
            src = cache.setdefault(path, strip_comments(open(os.path.join(repo, path)).read()))
            mm = re.search(r"\bconst\s+" + name + r"\s*:[^=;]+=([^;]*);", src)
            if not mm: raise LostAnchor(f"const {name} not found")
            out.append(mm.group(1)); report.append(f"{path}:const {name}")
            i += 1
            continue
        m4 = re.match(r'\s*//@(?:ENUM|STRUCT) (\w+) from (\S+)', lines[i])
        if m4:
            name, path = m4.groups()
            src = cache.setdefault(path, strip_comments(open(os.path.join(repo, path)).read()))
            mm = re.search(r"pub (?:enum|struct)\s+" + name + r"\b[^{]*\{", src)
            if not mm: raise LostAnchor(f"enum {name} not found")
            t = src[mm.start():match_brace(src, mm.end() - 1)]
            for a, b in gsubs:
                t = re.sub(a, b, t)
            out.append(t); report.append(f"{path}:enum {name}")
            i += 1
            continue
        mg = re.match(r"\s*//@GSUB '(.*)' => '(.*)'$", lines[i])
        if mg:
            gsubs.append(mg.groups()); i += 1
            continue
        if not m:
            out.append(lines[i]); i += 1; continue
        name, header, path = m.groups()
        try:
            src = cache.setdefault(path, strip_comments(open(os.path.join(repo, path)).read()))
        except FileNotFoundError:
            raise LostAnchor(f"file {path} not found")
        sig, body = find_fn(src, name, header)
        for a, b in gsubs:
            sig, body = re.sub(a, b, sig), re.sub(a, b, body)
        ret, contract, start, loops, subs, bodies = None, [], [], {}, [], {}
        i += 1
        while "//@END" not in lines[i]:
            l = lines[i].strip()
            if l.startswith("//@ret "): ret = l[7:].strip()
            elif l.startswith("//@contract "): contract.append(l[12:])
            elif l.startswith("//@start "): start.append(l[9:])
            elif l.startswith("//@loop "):
                k, t = l[8:].split(" ", 1); loops[int(k)] = loops.get(int(k), "") + t + "\n"
            elif l.startswith("//@body "):
                k, t = l[8:].split(" ", 1); bodies[int(k)] = bodies.get(int(k), "") + t + "\n"
            elif l.startswith("//@sub "):
                a, b = re.match(r"//@sub '(.*)' => '(.*)'$", l).groups(); subs.append((a, b))
            elif l: raise ValueError(f"bad directive {l}")
            i += 1
        i += 1
        out.append(render(sig, body, ret, "\n".join(contract), "\n".join(start), loops, subs, bodies))
        report.append(f"{path}:{name}")
    return "\n".join(out), report

if __name__ == "__main__":
    t, r = expand(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/repo")
    print(t)
    print("extracted:", r, file=sys.stderr)
