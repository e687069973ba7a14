#!/usr/bin/env python3
"""Mechanical extraction of Rust items from /repo into a Verus unit.

A unit template (units/*.rs) is Verus text with `//@` directives.  Every
directive names an item of /repo's current source; the item's own tokens are
copied.  What the extraction changes is limited to (see DESIGN.md, "What the
extraction drops"): comments, attributes and visibility are dropped; contract
clauses, loop clauses and ghost blocks are inserted; panicking macros become
calls whose precondition is that they do not panic; error-message arguments are
dropped; a fixed table of std idioms Verus does not accept is replaced token for
token (rewrite directives, listed in the evidence).
"""
import re, sys, os

REPO = os.environ.get("VERIF_REPO", "/repo")


class XErr(Exception):
    pass


# ------------------------------------------------------------------ lexer
class Tok:
    __slots__ = ("t", "ws", "k")

    def __init__(self, t, ws="", k="p"):
        self.t, self.ws, self.k = t, ws, k

    def __repr__(self):
        return self.t


PUNCT = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ".."]
ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"0[xob][0-9a-fA-F_]+(?:[ui](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9]+)?(?:[uif](?:8|16|32|64|128|size))?")


def lex(s):
    out = []
    i, n = 0, len(s)
    ws = ""
    while i < n:
        c = s[i]
        if c.isspace():
            ws += c
            i += 1
            continue
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
            continue
        if s.startswith("/*", i):
            d = 1
            i += 2
            while i < n and d:
                if s.startswith("/*", i):
                    d += 1
                    i += 2
                elif s.startswith("*/", i):
                    d -= 1
                    i += 2
                else:
                    i += 1
            ws += " "
            continue
        m = re.compile(r'b?r(#*)"').match(s, i)
        if m:
            e = s.index('"' + m.group(1), m.end()) + 1 + len(m.group(1))
            out.append(Tok(s[i:e], ws, "s"))
            ws = ""
            i = e
            continue
        if c == '"' or s.startswith('b"', i):
            j = i + (2 if c == "b" else 1)
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(Tok(s[i:j + 1], ws, "s"))
            ws = ""
            i = j + 1
            continue
        m = re.compile(r"b?'(\\x[0-9a-fA-F]{2}|\\u\{[^}]*\}|\\.|[^\\'])'").match(s, i)
        if m:
            out.append(Tok(m.group(0), ws, "s"))
            ws = ""
            i = m.end()
            continue
        if c == "'":
            m = ID.match(s, i + 1)
            e = m.end() if m else i + 1
            out.append(Tok(s[i:e], ws, "l"))
            ws = ""
            i = e
            continue
        m = ID.match(s, i)
        if m:
            out.append(Tok(m.group(0), ws, "i"))
            ws = ""
            i = m.end()
            continue
        if c.isdigit():
            m = NUM.match(s, i)
            t = m.group(0)
            # 0..5 is a range, tuple.0.1 is handled by the dot rule
            if "." in t and (s[i + len(t.split(".")[0]):].startswith("..") or (out and out[-1].t == "." )):
                t = t.split(".")[0]
            out.append(Tok(t, ws, "n"))
            ws = ""
            i += len(t)
            continue
        for p in PUNCT:
            if s.startswith(p, i):
                # generics: never fuse >> >= etc. after an identifier in type position is
                # undecidable here; keep them fused, they print the same
                out.append(Tok(p, ws))
                ws = ""
                i += len(p)
                break
        else:
            out.append(Tok(c, ws))
            ws = ""
            i += 1
    return out


def text(toks):
    r = "".join((t.ws if t.ws else "") + t.t for t in toks)
    return r


def T(s):
    """lex a fragment for insertion, guaranteeing separation"""
    r = lex(s)
    if r and not r[0].ws:
        r[0].ws = " "
    return r


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def close(toks, i):
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == "p":
            if toks[j].t in OPEN:
                d += 1
            elif toks[j].t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise XErr("unbalanced")


def generic_end(toks, i):
    """toks[i] is '<'; index after the matching '>'"""
    d = 0
    j = i
    while j < len(toks):
        t = toks[j].t
        if t in OPEN:
            j = close(toks, j)
        elif t == "<":
            d += 1
        elif t == ">":
            d -= 1
        elif t == ">>":
            d -= 2
        if d <= 0:
            return j + 1
        j += 1
    raise XErr("unbalanced <")


# ------------------------------------------------------------------ items
class Item:
    def __init__(self, kind, name, toks, attrs, ctx):
        self.kind, self.name, self.toks, self.attrs, self.ctx = kind, name, toks, attrs, ctx


def type_head(toks):
    """last path segment of a type's head: crate::a::B<T> -> B"""
    name = None
    j = 0
    while j < len(toks):
        t = toks[j]
        if t.k == "i" and t.t not in ("dyn", "mut", "const"):
            name = t.t
            if j + 1 < len(toks) and toks[j + 1].t == "::":
                j += 2
                continue
            return name
        if t.t == "[":
            return "[" + text(toks[j + 1:close(toks, j)]).strip() + "]"
        j += 1
    return name


FEATURES = {"default", "ics23", "std", "mocks"}   # what the workspace builds with


def cfg_on(a):
    """value of a cfg(...) attribute in the build the properties are about"""
    a = re.sub(r"\s+", "", a)

    def ev(x):
        m = re.match(r"(all|any|not)\((.*)\)$", x)
        if m:
            parts, d, cur = [], 0, ""
            for c in m.group(2):
                if c == "," and d == 0:
                    parts.append(cur)
                    cur = ""
                    continue
                d += (c == "(") - (c == ")")
                cur += c
            if cur:
                parts.append(cur)
            v = [ev(y) for y in parts]
            return all(v) if m.group(1) == "all" else any(v) if m.group(1) == "any" else not v[0]
        m = re.match(r'feature="(.*)"$', x)
        if m:
            return m.group(1) in FEATURES
        return x in ("debug_assertions", "unix")

    return ev(a[4:-1]) if a.startswith("cfg(") else True


def split_items(toks, ctx=""):
    """items of a token list, qualified"""
    out = []
    i = 0
    attrs = []
    while i < len(toks):
        t = toks[i]
        if t.t == "#":
            j = i + 1
            if toks[j].t == "!":
                j += 1
            e = close(toks, j)
            attrs.append(text(toks[j + 1:e]).strip())
            i = e + 1
            continue
        start = i
        # skip visibility and qualifiers
        while toks[i].t in ("pub", "unsafe", "async", "default") or (toks[i].t == "const" and toks[i + 1].t == "fn"):
            if toks[i].t == "pub" and i + 1 < len(toks) and toks[i + 1].t == "(":
                i = close(toks, i + 1) + 1
            else:
                i += 1
        k = toks[i].t
        skip = any(not cfg_on(a) for a in attrs if a.startswith("cfg") and not a.startswith("cfg_attr"))
        if k == "fn":
            name = toks[i + 1].t
            j = i
            while toks[j].t not in ("{", ";"):
                j = close(toks, j) + 1 if toks[j].t in ("(", "[") else j + 1
            e = close(toks, j) if toks[j].t == "{" else j
            if not skip:
                out.append(Item("fn", ctx + name, toks[i:e + 1], attrs, ctx))
        elif k in ("struct", "enum", "union"):
            name = toks[i + 1].t
            j = i
            while toks[j].t not in ("{", ";", "("):
                j = generic_end(toks, j) if toks[j].t == "<" else j + 1
            if toks[j].t == "(":
                j = close(toks, j)
                while toks[j].t != ";":
                    j += 1
                e = j
            else:
                e = close(toks, j) if toks[j].t == "{" else j
            if not skip:
                out.append(Item(k, ctx + name, toks[i:e + 1], attrs, ctx))
        elif k == "impl":
            j = i + 1
            if toks[j].t == "<":
                j = generic_end(toks, j)
            h0 = j
            forpos = None
            while toks[j].t != "{":
                if toks[j].t == "for" and toks[j + 1].t != "<":
                    forpos = j
                if toks[j].t == "where":
                    break
                j = generic_end(toks, j) if toks[j].t == "<" else (close(toks, j) + 1 if toks[j].t in ("(", "[") else j + 1)
            hend = j
            while toks[j].t != "{":
                j += 1
            e = close(toks, j)
            if not skip:
                if forpos is not None:
                    tr = text(toks[h0:forpos]).strip()
                    tr = re.sub(r"^(\w+::)*", "", tr)
                    tr = re.sub(r"\s+", "", tr)
                    ty = type_head(toks[forpos + 1:hend])
                    c = "<%s for %s>::" % (tr, ty)
                else:
                    c = type_head(toks[h0:hend]) + "::"
                out.append(Item("impl", ctx + c[:-2], toks[i:e + 1], attrs, ctx))
                out += split_items(toks[j + 1:e], ctx + c)
        elif k == "trait":
            name = toks[i + 1].t
            j = i
            while toks[j].t != "{":
                j += 1
            e = close(toks, j)
            if not skip:
                out += split_items(toks[j + 1:e], ctx + "trait " + name + "::")
        elif k == "mod":
            if toks[i + 2].t == "{":
                e = close(toks, i + 2)
                if not skip:
                    out += split_items(toks[i + 3:e], ctx + toks[i + 1].t + "::")
            else:
                e = i + 2
        elif k in ("use", "extern", "type", "const", "static"):
            j = i
            while toks[j].t != ";":
                j = close(toks, j) + 1 if toks[j].t in OPEN else j + 1
            e = j
            if k in ("const", "static", "type") and not skip:
                out.append(Item(k, ctx + toks[i + 1].t, toks[i:e + 1], attrs, ctx))
        elif k == "macro_rules":
            j = i
            while toks[j].t not in OPEN:
                j += 1
            e = close(toks, j)
        else:
            # item macro or stray token
            j = i
            while j < len(toks) and toks[j].t not in (";", "{"):
                j = close(toks, j) + 1 if toks[j].t in ("(", "[") else j + 1
            if j >= len(toks):
                break
            e = close(toks, j) if toks[j].t == "{" else j
        attrs = []
        i = e + 1
    return out


_cache = {}


def items(path):
    p = os.path.join(REPO, path)
    if p not in _cache:
        try:
            src = open(p).read()
        except OSError:
            raise XErr("source file %s is gone" % path)
        _cache[p] = split_items(lex(src))
    return _cache[p]


def find(path, name, kinds):
    if "#" in name:
        # a fn inside a fn
        outer, inner = name.split("#")
        o = find(path, outer, kinds)
        for i in range(1, len(o.toks) - 1):
            if o.toks[i].t == "fn" and o.toks[i + 1].t == inner:
                j = i
                while o.toks[j].t != "{":
                    j = close(o.toks, j) + 1 if o.toks[j].t in ("(", "[") else j + 1
                return Item("fn", inner, o.toks[i:close(o.toks, j) + 1], [], "")
        raise XErr("no fn `%s` inside `%s` in %s" % (inner, outer, path))
    c = [x for x in items(path) if x.name == name and x.kind in kinds]
    if not c:
        raise XErr("no item `%s` in %s" % (name, path))
    if len(c) > 1:
        raise XErr("item `%s` is ambiguous in %s" % (name, path))
    return c[0]


# ------------------------------------------------------- pattern rewriting
def match_pat(pat, toks, i):
    """match pattern tokens at toks[i]; returns (end, binds) or None.
    `$x` binds a shortest balanced non-empty sequence without `;`,
    `$opt_x` one that may be empty, `$st_x` one that may be empty or hold `;`,
    `$id_x` one identifier."""
    binds = {}

    def go(pi, ti):
        while pi < len(pat):
            p = pat[pi]
            if p.t == "$":
                nm = pat[pi + 1].t
                one = False
                pi2 = pi + 2
                if nm in binds:
                    b = binds[nm]
                    if [x.t for x in toks[ti:ti + len(b)]] != [x.t for x in b]:
                        return None
                    ti += len(b)
                    pi = pi2
                    continue
                if nm.startswith("id_"):
                    if ti >= len(toks) or toks[ti].k != "i":
                        return None
                    binds[nm] = toks[ti:ti + 1]
                    ti += 1
                    pi = pi2
                    continue
                e = ti
                stm = nm.startswith("st_")
                if nm.startswith("opt_") or stm:
                    binds[nm] = []
                    r = go(pi2, ti)
                    if r is not None:
                        return r
                    del binds[nm]
                while e < len(toks):
                    if toks[e].k == "p" and toks[e].t in OPEN:
                        try:
                            e = close(toks, e) + 1
                        except XErr:
                            return None
                    elif toks[e].k == "p" and (toks[e].t in CLOSE or toks[e].t == ";" and not stm):
                        return None
                    else:
                        e += 1
                    binds[nm] = toks[ti:e]
                    r = go(pi2, e)
                    if r is not None:
                        return r
                    del binds[nm]
                return None
            if p.k == "p" and p.t in CLOSE and ti + 1 < len(toks) and toks[ti].t == "," and toks[ti + 1].t == p.t:
                ti += 1  # a trailing comma
            if ti >= len(toks) or toks[ti].t != p.t:
                return None
            ti += 1
            pi += 1
        return ti

    e = go(0, i)
    return None if e is None else (e, binds)


def subst(rep, binds):
    out = []
    i = 0
    while i < len(rep):
        if rep[i].t == "$":
            b = binds[rep[i + 1].t]
            b = [Tok(x.t, x.ws, x.k) for x in b]
            if b:
                b[0].ws = rep[i].ws or " "
            out += b
            i += 2
        else:
            out.append(Tok(rep[i].t, rep[i].ws, rep[i].k))
            i += 1
    if out and not out[0].ws:
        out[0].ws = " "
    return out


def rewrite(toks, pat, rep, count=None):
    out = []
    i = 0
    n = 0
    while i < len(toks):
        m = match_pat(pat, toks, i) if toks[i].t == pat[0].t or pat[0].t == "$" else None
        # a name pattern must not start inside a path or field access unless written so
        if m and m[0] > i:
            sub = subst(rep, m[1])
            if sub:
                sub[0].ws = toks[i].ws or " "
            out += sub
            i = m[0]
            n += 1
        else:
            out.append(toks[i])
            i += 1
    return out, n


def split_args(toks, types=False):
    out, cur = [], []
    i = 0
    while i < len(toks):
        if types and toks[i].t == "<":
            e = generic_end(toks, i)
            cur += toks[i:e]
            i = e
            continue
        if toks[i].t in OPEN and toks[i].k == "p":
            e = close(toks, i)
            cur += toks[i:e + 1]
            i = e + 1
            continue
        if toks[i].t == ",":
            out.append(cur)
            cur = []
        else:
            cur.append(toks[i])
        i += 1
    if cur:
        out.append(cur)
    return out


MIRAI_NOOP = {"assume", "precondition", "postcondition", "verify", "assume_preconditions"}


def macros(toks):
    """panicking macros become calls with `requires`, MIRAI no-ops vanish"""
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.k == "i" and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t in OPEN and toks[i + 1].ws == "":
            e = close(toks, i + 2)
            args = split_args(toks[i + 3:e])
            a = lambda k: macros(args[k])
            nm = t.t
            new = None
            if nm in ("assert", "debug_assert", "checked_precondition", "checked_assume", "checked_verify"):
                new = T("rt_assert(") + a(0) + T(")")
            elif nm in ("assert_eq", "debug_assert_eq"):
                new = T("rt_assert((") + a(0) + T(") == (") + a(1) + T("))")
            elif nm in ("assert_ne", "debug_assert_ne"):
                new = T("rt_assert((") + a(0) + T(") != (") + a(1) + T("))")
            elif nm in MIRAI_NOOP:
                new = T("()")
            elif nm == "ensure":
                new = T("if !(") + a(0) + T(") { return Err(rt_err()); }")
                if e + 1 < len(toks) and toks[e + 1].t == ";":
                    e += 1
            elif nm == "bail":
                new = T("return Err(rt_err())")
            elif nm in ("format_err", "anyhow"):
                new = T("rt_err()")
            elif nm in ("unreachable", "panic", "unimplemented", "todo"):
                new = T("rt_unreachable()")
            elif nm == "format":
                new = T("rt_string()")
            elif nm == "matches":
                arg = toks[i + 3:e]
                sc = a(0)
                if sc and not sc[0].ws:
                    sc[0].ws = " "
                new = T("(match") + sc + T("{") + macros(toks_after_first_comma(arg)) + T(" => true, _ => false })")
            elif nm == "vec":
                inner = toks[i + 3:e]
                if not inner:
                    new = T("Vec::new()")
                else:
                    new = [Tok(x.t, x.ws, x.k) for x in toks[i:i + 3]] + macros(inner) + [toks[e]]
            if new is not None:
                new[0].ws = t.ws or " "
                out += new
                i = e + 1
                continue
        out.append(t)
        i += 1
    return out


def toks_after_first_comma(toks):
    i = 0
    while toks[i].t != ",":
        i = close(toks, i) + 1 if toks[i].t in OPEN else i + 1
    r = toks[i + 1:]
    while r and r[-1].t == ",":
        r = r[:-1]
    return r


def while_let(toks):
    """`while let P = E { B }` -> `loop { match E { P => { B } _ => { break; } } }`"""
    out = []
    i = 0
    while i < len(toks):
        if toks[i].t == "while" and toks[i + 1].t == "let":
            j = i + 2
            while toks[j].t != "=":
                j = close(toks, j) + 1 if toks[j].t in OPEN else j + 1
            pat = toks[i + 2:j]
            k = j + 1
            while toks[k].t != "{":
                k = close(toks, k) + 1 if toks[k].t in ("(", "[") else k + 1
            e = close(toks, k)
            body = while_let(toks[k:e + 1])
            new = T("loop { match") + toks[j + 1:k] + T("{") + pat + T("=>") + body + T("_ => { break; } } }")
            new[0].ws = toks[i].ws or " "
            out += new
            i = e + 1
        else:
            out.append(toks[i])
            i += 1
    return out


def loops(toks):
    """[(index of keyword, index of body open, index of body close)] in order"""
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.k == "i" and t.t in ("while", "loop", "for") and not (t.t == "for" and toks[i + 1].t == "<"):
            j = i + 1
            while toks[j].t != "{":
                j = close(toks, j) + 1 if toks[j].t in ("(", "[") else j + 1
            out.append((i, j, close(toks, j)))
        i += 1
    return out


# ------------------------------------------------------------- fn assembly
class FnSpec:
    def __init__(self, path, name):
        self.path, self.name = path, name
        self.rename = None
        self.props = []
        self.ret = "r"
        self.spec = ""
        self.loops = {}      # n -> clause text
        self.loopvar = {}    # n -> ghost iterator name
        self.starts = []     # text at fn start
        self.loopstart = {}
        self.loopend = {}
        self.afterloop = {}
        self.tail = ""
        self.rewrites = []   # (pat, rep, optional)
        self.hints = []      # (where, pattern, text)
        self.sig_rewrites = []
        self.trusted = False
        self.attrs = []
        self.nopub = False


def assemble(fs, common, vacuity=False, skip=False):
    it = find(fs.path, fs.name, ("fn",))
    toks = [Tok(x.t, x.ws, x.k) for x in it.toks]
    notes = []
    # nested fn items are lifted out by name on request only
    b = 0
    while toks[b].t != "{":
        b = close(toks, b) + 1 if toks[b].t in ("(", "[") else b + 1
        if b >= len(toks):
            raise XErr("%s has no body" % fs.name)
    sig, body = toks[:b], toks[b:]
    for pat, rep in fs.sig_rewrites:
        sig, n = rewrite(sig, lex(pat), lex(rep))
        if n == 0:
            raise XErr("%s: signature pattern `%s` not found" % (fs.name, pat))
    if fs.rename:
        sig[1] = Tok(fs.rename, " ", "i")
    # tuple patterns in parameters
    p = next(i for i, x in enumerate(sig) if x.t == "(" )
    if sig[2].t == "<":
        p = generic_end(sig, 2)
    pe = close(sig, p)
    args = split_args(sig[p + 1:pe])
    pre = ""
    newargs = []
    for ai, a in enumerate(args):
        if a and a[0].t == "(":
            c = close(a, 0)
            nm = "rt_arg%d" % ai
            pre += "let %s = %s;" % (text(a[:c + 1]).strip(), nm)
            a = T(nm) + a[c + 1:]
        elif a and a[0].t == "mut" and a[1].t == "self":
            pre += "let mut rt_self = self;"
            a = a[1:]
            notes.append("mutself")
        elif a and a[0].t == "mut" and a[1].k == "i":
            pre += "let mut %s = %s;" % (a[1].t, a[1].t)
            a = a[1:]
        newargs.append(a)
    na = []
    for k, a in enumerate(newargs):
        if k:
            na += [Tok(",")]
        if a and not a[0].ws:
            a[0].ws = " "
        na += a
    rest = sig[pe + 1:]
    sig = sig[:p + 1] + na + [Tok(")")]
    # return type
    ret = ""
    where = ""
    if rest and rest[0].t == "->":
        w = next((i for i, x in enumerate(rest) if x.t == "where"), len(rest))
        ret = " -> (%s: %s)" % (fs.ret, text(rest[1:w]).strip())
        where = text(rest[w:])
    else:
        where = text(rest)
    if "mutself" in notes:
        for x in body:
            if x.t == "self":
                x.t = "rt_self"
    # body rewrites
    body = macros(body)
    body = while_let(body)
    for pat, rep, opt in fs.rewrites:
        body, n = rewrite(body, lex(pat), lex(rep))
        if n == 0 and not opt:
            raise XErr("%s: idiom `%s` not found" % (fs.name, pat))
    for pat, rep in common:
        body, n = rewrite(body, lex(pat), lex(rep))
    # hints by anchor
    lost = []
    for where_, pat, txt in fs.hints:
        P = lex(pat)
        k = 0
        hit = False
        while k < len(body):
            m = match_pat(P, body, k) if body[k].t == P[0].t else None
            if m:
                if where_ == "before":
                    # statement start: walk back to ; { or }
                    s = k
                    while s > 0 and body[s - 1].t not in (";", "{", "}"):
                        s -= 1
                    body[s:s] = T("\n" + txt + "\n")
                else:
                    # after the end of the statement
                    s = m[0]
                    while s < len(body) and body[s].t != ";":
                        s = close(body, s) + 1 if body[s].t in OPEN else s + 1
                        if s < len(body) and body[s].t == "}" :
                            break
                    body[s + 1:s + 1] = T("\n" + txt + "\n")
                hit = True
                break
            k += 1
        if not hit:
            lost.append(pat)
    # loops (insert from the last to the first so indices stay valid)
    L = loops(body)
    want = set(fs.loops) | set(fs.loopstart) | set(fs.loopend) | set(fs.loopvar) | set(fs.afterloop)
    if len(L) != len(fs.loops) :
        lost.append("%d loops, %d annotated" % (len(L), len(fs.loops)))
    for n in sorted(range(len(L)), reverse=True):
        kw, o, c = L[n]
        # positions inside are unaffected because we go backwards and inner loops have larger n
        c = close(body, o)
        if n in fs.afterloop:
            body[c + 1:c + 1] = T("\n" + fs.afterloop[n] + "\n")
        if n in fs.loopend:
            body[c:c] = T("\n" + fs.loopend[n] + "\n")
        if n in fs.loopstart:
            body[o + 1:o + 1] = T("\n" + fs.loopstart[n] + "\n")
        if n in fs.loops:
            body[o:o] = T("\n" + fs.loops[n] + "\n")
            body[o].ws = "\n"
        if n in fs.loopvar and body[kw].t == "for":
            j = kw + 1
            while body[j].t != "in":
                j = close(body, j) + 1 if body[j].t in OPEN else j + 1
            body[j + 1:j + 1] = T(fs.loopvar[n] + ":")
    st = "".join(fs.starts)
    if fs.tail:
        inner = text(body[1:-1])
        btxt = "{ %s %s let %s = {%s\n}; %s %s }" % (st, pre, fs.ret, inner, fs.tail, fs.ret)
    else:
        body[1:1] = T("\n" + st + " " + pre + "\n") if (st or pre) else []
        btxt = text(body)
    if vacuity:
        btxt = "{ proof { assert(false); assume(false); } rt_unreachable() }"
    if skip:
        btxt = "{ rt_unreachable() }"
    at = "".join("#[%s]\n" % a for a in fs.attrs)
    if skip:
        at = "#[verifier::external_body]\n"
    out = at + ("" if fs.nopub else "pub ") + text(sig).strip() + ret + " " + where.strip() + "\n" + fs.spec.rstrip() + "\n" + btxt.strip() + "\n"
    return out, lost


def strip_pub(toks):
    out = []
    i = 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and toks[i + 1].t == "[":
            i = close(toks, i + 1) + 1
            continue
        if toks[i].t == "pub":
            if toks[i + 1].t == "(":
                e = close(toks, i + 1)
                i = e + 1
            else:
                i += 1
            continue
        out.append(toks[i])
        i += 1
    return out


def emit_type(path, name, pubfields=True, rewrites=()):
    it = find(path, name, ("struct", "enum"))
    toks = strip_pub([Tok(x.t, x.ws, x.k) for x in it.toks])
    if it.kind == "struct" and pubfields:
        # make every field visible to the specification
        o = next((i for i, x in enumerate(toks) if x.t in ("{", "(")), None)
        if o is not None and toks[o].t in ("{", "("):
            e = close(toks, o)
            f = split_args(toks[o + 1:e], True)
            nf = []
            for a in f:
                a = list(a)
                ws = a[0].ws or " "
                a[0].ws = " "
                nf += [Tok("pub", ws, "i")] + a + [Tok(",")]
            toks = toks[:o + 1] + nf + toks[e:]
    for pat, rep in rewrites:
        toks, n = rewrite(toks, lex(pat), lex(rep))
        if n == 0:
            raise XErr("%s: type pattern `%s` not found" % (name, pat))
    toks[0].ws = ""
    return "pub " + text(toks) + "\n"


def emit_const(path, name, rewrites=()):
    it = find(path, name, ("const", "static", "type"))
    toks = [Tok(x.t, x.ws, x.k) for x in it.toks]
    for pat, rep in rewrites:
        toks, n = rewrite(toks, lex(pat), lex(rep))
    toks[0].ws = ""
    return "pub " + text(toks) + "\n"


def emit_bytes(path, name):
    """a constant byte string: its value as a spec function, and the constant with that value"""
    it = find(path, name, ("const",))
    eq = next(i for i, x in enumerate(it.toks) if x.t == "=")
    lit = next((x for x in it.toks[eq:] if x.k == "s" and x.t.startswith("b")), None)
    if lit is None or len([x for x in it.toks[eq + 1:] if x.t not in ("*", "&", ";")]) != 1:
        raise XErr("%s is not a byte string" % name)
    import ast
    b = ast.literal_eval(lit.t)
    ty = "[u8; %d]" % len(b) if any(x.t == "*" for x in it.toks[eq:]) else "&'static [u8]"
    arr = "[%s]" % ", ".join("%du8" % x for x in b)
    if ty.startswith("&"):
        arr = "&" + arr
    return ("#[allow(non_snake_case)]\npub open spec fn %s_v() -> Seq<u8> { seq![%s] }\n" % (name, ", ".join("%du8" % x for x in b)) +
            "pub exec const %s: %s ensures %s@ == %s_v() { let r: %s = %s; proof { assert(r@ =~= %s_v()); } r }\n" % (name, ty, name, name, ty, arr, name))


# ------------------------------------------------------------ unit template
def parse_directive_fn(lines, i):
    m = re.match(r"\s*//@fn\s+(\S+)\s+(.*)$", lines[i])
    head = m.group(2)
    name = head.split(" props ")[0].strip()
    fs = FnSpec(m.group(1), name)
    if " props " in head:
        fs.props = head.split(" props ")[1].split()
    i += 1
    mode, arg, buf = None, None, []

    def flush():
        nonlocal mode, arg, buf
        t = "\n".join(buf) + "\n" if buf else ""
        if mode == "spec":
            fs.spec += t
        elif mode == "start":
            fs.starts.append(t)
        elif mode == "loop":
            fs.loops[arg] = t
        elif mode == "loopstart":
            fs.loopstart[arg] = t
        elif mode == "loopend":
            fs.loopend[arg] = t
        elif mode == "afterloop":
            fs.afterloop[arg] = t
        elif mode == "tail":
            fs.tail = t
        elif mode in ("before", "after"):
            fs.hints.append((mode, arg, t))
        mode, arg, buf = None, None, []

    while True:
        if i >= len(lines):
            raise XErr("unterminated //@fn " + name)
        l = lines[i]
        s = l.strip()
        if s.startswith("//@"):
            flush()
            d = s[3:].strip()
            if d == "end":
                return fs, i + 1
            w = d.split(None, 1)
            k = w[0]
            a = w[1] if len(w) > 1 else ""
            if k == "ret":
                fs.ret = a
            elif k == "rename":
                fs.rename = a
            elif k == "nopub":
                fs.nopub = True
            elif k == "attr":
                fs.attrs.append(a)
            elif k == "spec" or k == "start" or k == "tail":
                mode = k
            elif k in ("loop", "loopstart", "loopend", "afterloop"):
                mode = k
                x = a.split()
                arg = int(x[0])
                if len(x) > 1:
                    fs.loopvar[arg] = x[1]
            elif k in ("before", "after"):
                mode = k
                arg = a
            elif k in ("rewrite", "rewrite?"):
                p, r = a.split("==>", 1)
                fs.rewrites.append((p.strip(), r.strip(), k.endswith("?")))
            elif k == "sig":
                p, r = a.split("==>", 1)
                fs.sig_rewrites.append((p.strip(), r.strip()))
            else:
                raise XErr("bad directive " + d)
        else:
            buf.append(l)
        i += 1


class Unit:
    def __init__(self):
        self.lines = []
        self.fns = []      # (name, props, first line, last line, lost hints)
        self.errors = []   # (what, name, props)
        self.rewrites = []


def build(template, vacuity=False, base=None, skip=()):
    """expand a template; extraction failures are collected, not raised"""
    u = Unit()
    base = base or os.path.dirname(template)
    common = []

    def emit(txt):
        u.lines += txt.rstrip("\n").split("\n")

    depth = [0]

    def run(fn):
        lines = open(fn).read().split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            if s.startswith("//@fn "):
                fs, i = parse_directive_fn(lines, i)
                for p, r, o in fs.rewrites:
                    u.rewrites.append((fs.name, p, r))
                full = fs.path + " :: " + fs.name
                try:
                    txt, lost = assemble(fs, common, vacuity and not depth[0], full in skip)
                except XErr as e:
                    u.errors.append((str(e), full, fs.props))
                    continue
                except (IndexError, StopIteration) as e:
                    u.errors.append(("cannot parse: %r" % e, full, fs.props))
                    continue
                a = len(u.lines) + 1
                emit(txt)
                u.fns.append((full, fs.props, a, len(u.lines), lost, depth[0] > 0))
                continue
            m = re.match(r"//@(type|const)\s+(\S+)\s+(\S+)(.*)$", s)
            if m:
                rw = []
                if m.group(4).strip():
                    for x in m.group(4).split(";;"):
                        p, r = x.split("==>", 1)
                        rw.append((p.strip(), r.strip()))
                try:
                    emit(emit_type(m.group(2), m.group(3), True, rw) if m.group(1) == "type" else emit_const(m.group(2), m.group(3), rw))
                except XErr as e:
                    u.errors.append(("%s: %s" % (m.group(3), e), None, []))
                i += 1
                continue
            if s.startswith("//@bytes "):
                w = s.split()
                try:
                    emit(emit_bytes(w[1], w[2]))
                except XErr as e:
                    u.errors.append(("%s: %s" % (w[2], e), None, []))
                i += 1
                continue
            if s.startswith("//@use "):
                # contracts proved in another unit: a module of its own, not verified again here
                f = s.split(None, 1)[1]
                m = "used_" + os.path.splitext(f)[0]
                emit("pub mod %s {\n#[allow(unused_imports)]\nuse vstd::prelude::*;\n#[allow(unused_imports)]\nuse super::*;" % m)
                depth[0] += 1
                run(os.path.join(base, f))
                depth[0] -= 1
                emit("}\n#[allow(unused_imports)]\npub use %s::*;" % m)
            elif s.startswith("//@include "):
                run(os.path.join(base, s.split(None, 1)[1]))
            elif s.startswith("//@common "):
                p, r = s[len("//@common "):].split("==>", 1)
                common.append((p.strip(), r.strip()))
                u.rewrites.append(("*", p.strip(), r.strip()))
            elif s.startswith("//@"):
                raise XErr("stray directive %s in %s" % (s, fn))
            else:
                u.lines.append(l)
            i += 1

    run(template)
    return u


if __name__ == "__main__":
    u = build(sys.argv[1], vacuity="--vacuity" in sys.argv)
    open(sys.argv[2], "w").write("\n".join(u.lines) + "\n")
    for e in u.errors:
        print("EXTRACT", e)
    for f in u.fns:
        if f[4]:
            print("LOST", f[0], f[4])
