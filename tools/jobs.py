"""Which harness runs with which bounds decide which property."""

UNDEF, HASH, SHORT, EMPTYT, UNI, REV, DIST, TEXT, REACH, START, NOLR, NAMES = range(12)
OPT = {UNDEF: "one non-terminal without a rule may be used", HASH: "tables iterate in insertion or in reverse order", SHORT: "alternatives after the first have at most 1 symbol",
       EMPTYT: "terminals may be empty", UNI: "characters: any Unicode scalar value", REV: "rules written in reverse order", DIST: "terminals begin with different characters",
       TEXT: "grammar read from text", REACH: "only grammars without unreachable rules", START: "any non-terminal as start symbol", NOLR: "left-recursive grammars left out", NAMES: "short names"}


def cfg(fam=0, k=0, alts=0, len=0, terms=0, tlen=1, slen=0, o=()):
    v = fam | k << 4 | alts << 8 | len << 12 | terms << 16 | tlen << 20 | slen << 24
    for b in o:
        v |= 1 << (28 + b)
    return v


SHAPES = ["a chain of rules, each ending in the next", "a row of optional parts", "a chain of rules, each being the next", "many alternatives", "one long alternative with a repeated non-terminal", "a long terminal",
          "nested brackets", "a list", "a chain of rules, each beginning with the next", "a chain of nullable rules, each beginning with the next"]
SIZES = [3, 6, 10, 14, 20, 30, 40, 50, 60, 70, 100, 130, 200, 260, 300, 520]


def large(shape, size, terms=1, every=0, o=(), dbl=0):
    """A big grammar: all given but for some symbolic characters; a long sentence of it, cut or changed."""
    return cfg(15, shape, size, every, terms, 1, dbl, o)


def longer(a, k):
    """The long parts 2^k times as long."""
    return a | k << 60


def describe_cfg(l, script=True):
    n = [(l >> (4 * i)) & 15 for i in range(7)]
    fam, k, alts, ln, terms, tlen, slen = n
    o = l >> 28
    if fam == 15:
        s = "%s, size %d, %d symbolic characters in its terminals" % (SHAPES[k], SIZES[alts] << slen, terms)
        if script:
            s += "; a long sentence of it, itself, cut, with a symbolic character in place of one (%s) or behind it" % ("any" if ln & 1 else "the first or last two, the middle one")
    elif fam == 0:
        s = "all grammars of %d rules, up to %d alternatives each, up to %d symbols each, up to %d terminal occurrences of up to %d symbolic characters" % (k, alts, ln, terms, max(tlen, 1))
    elif fam == 1:
        s = "each of the 12 grammar templates, terminals of up to %d symbolic characters" % max(tlen, 1)
    elif fam == 2:
        s = "all rings of %d rules, each of one of %d forms, over %d symbolic terminals" % (k, alts, terms)
    else:
        s = "grammar template %d, terminals of up to %d symbolic characters" % (fam - 3, max(tlen, 1))
    if slen and fam != 15:
        s += "; all scripts of up to %d symbolic characters" % slen
    x = [OPT[b] for b in range(12) if o >> b & 1]
    return s + ("; " + "; ".join(x) if x else "")


G = [NOLR, REACH]


def scripts(e, cov, txt, B=None, L=None):
    """The families of grammars and scripts used for C01, C02, C03 and C11."""
    B, L = B or BIG, L or LARGE

    def f(tier):
        q = [
            (e, cfg(0, 2, 2, 2, 3, 1, 4, G), cov),
            (e, cfg(0, 2, 2, 2, 2, 2, 4, G), cov),
            (e, cfg(0, 1, 3, 3, 3, 2, 4, [NOLR]), cov),
            (e, cfg(1, tlen=1, slen=6), cov),
            (e, cfg(1, tlen=2, slen=4), cov),
            (e, cfg(4, tlen=1, slen=9), cov[:2]),
            (e, cfg(0, 2, 2, 2, 2, 1, 3, G + [TEXT, REV]), cov),
            (e, cfg(1, tlen=2, slen=4, o=[TEXT]), cov),
            (e, cfg(0, 1, 2, 2, 2, 1, 3, [NOLR, UNI]), cov),
            (e, cfg(0, 1, 1, 2, 1, 2, 3, [NOLR, UNI]), cov[:1]),
            (e, cfg(0, 3, 2, 2, 2, 1, 2, G + [SHORT]), []),
        ]
        big = [(e, large(s, z), []) for s, z in B] + [(e, large(5, 13, 1, dbl=8), []), (e, large(5, 13, 2, o=[TEXT], dbl=8), [])]
        q += [(e, cfg(0, 2, 2, 2, 2, 1, 3, G + [EMPTYT]), cov)]
        if tier == "quick":
            return q + big
        return q + big + [(e, large(s, z, 2, 1), []) for s, z in L] + [
            (e, cfg(0, 1, 3, 3, 4, 2, 5, [NOLR]), cov),
            (e, cfg(0, 3, 2, 2, 2, 1, 3, G + [SHORT]), cov),
            (e, cfg(0, 2, 2, 2, 1, 1, 2, G + [TEXT, UNI]), []),
            (e, cfg(0, 2, 2, 3, 3, 1, 4, G), cov),
            (e, cfg(0, 3, 2, 2, 2, 1, 3, G), cov),
            (e, cfg(0, 2, 3, 2, 3, 1, 4, G), cov),
            (e, cfg(1, tlen=1, slen=10), cov),
            (e, cfg(1, tlen=2, slen=8), cov),
            (e, cfg(4, tlen=1, slen=15), cov[:2]),
            (e, cfg(5, tlen=1, slen=12), cov[:2]),
            (e, cfg(0, 3, 2, 2, 3, 1, 4, G + [SHORT]), cov),
            (e, cfg(0, 4, 2, 2, 2, 1, 2, G + [SHORT]), []),
        ]
    return {"jobs": f, "describe": lambda h, a: describe_cfg(a), "bounds": txt, "budget": (300, 720)}


# chains and lists up to the depth the call stack of a debug build allows
BIG = [(0, 8), (1, 7), (2, 8), (3, 8), (4, 7), (5, 14), (6, 11), (7, 14), (8, 8), (9, 7)]
LARGE = [(0, 5), (1, 5), (3, 5), (4, 5), (5, 8), (6, 6), (7, 8), (8, 5), (9, 5)]
TREES = [(0, 6), (1, 6), (2, 8), (3, 6), (4, 5), (5, 14), (6, 6), (7, 6), (8, 6), (9, 6)]
GBIG = [(0, 8), (1, 8), (2, 8), (3, 8), (4, 8), (5, 14), (8, 8), (9, 8)]
GLONG = [cfg(0, 1, 1, 6, 3, 1, 0, [NOLR]), cfg(0, 2, 1, 5, 2, 1, 0, [NOLR])]
SCRIPT_BOUNDS = ("every grammar of the stated sizes (symbolic terminals: each character is any of the 128 ASCII characters unless said otherwise) and every script of the stated length; "
                 "12 templates of usual grammars with longer scripts; grammars of up to 56 rules, 56 alternatives, 112 symbols in one alternative, terminals of 300 (one: 66560) characters and scripts of 600 (with that one: 66562), of ten given shapes with one symbolic character (thorough: two) and a symbolic change. "
                 "Outside: other bigger grammars, other longer scripts, scripts nested more deeply than the call stack allows")


def simple(quick, thorough, describe, bounds, assume=(), budget=(300, 720)):
    return {"jobs": lambda tier: quick if tier == "quick" else quick + thorough, "describe": describe, "bounds": bounds, "assume": list(assume), "budget": budget}


def gr(e, cov, quick, thorough, bounds):
    quick = quick + [(a, []) for a in GLONG] + [(large(s, z), []) for s, z in GBIG]
    thorough = thorough + [(large(s, z, 3), []) for s, z in GBIG]
    return simple([(e, a, c if c is not None else cov) for a, c in quick], [(e, a, c if c is not None else cov) for a, c in thorough], lambda h, a: describe_cfg(a, False), bounds)


def nb(*a):
    return sum(x << (4 * i) for i, x in enumerate(a))


def vmq(e, texts):
    return [(e, nb(2, 0, 0, 0, 0, 3), [1, 2]), (e, nb(0, 0, 6, 2), [1]), (e, nb(0, 0, 7, 2), [1, 2]), (e, longer(nb(1, 0, 6, 1), 4), [1]), (e, longer(nb(1, 0, 7, 1), 4), [1, 2]), (e + "s", nb(1, 4), [1, 2, 3]), (e, nb(2, 0, 0, 2), [1, 2, 3]), (e, nb(1, 1), [1, 2, 3]), (e, nb(1, 3), [1, 2]), (e, nb(2, 2), [1, 2]), (e, nb(2, 0, 0, 1, 2), [1, 2])] + [
        (e, nb(1, 0, t, 3 if t < 4 else 2), [1, 2]) for t in texts] + [(e + "s", nb(4, 0), [1, 2, 3]), (e + "s", nb(2, 1), [2, 3]), (e + "s", nb(3, 2), [2, 3]), (e + "s", nb(2, 3), [2, 3])]


def vmt(e, texts):
    return [(e, nb(3, 0, 0, 4), [1, 2, 3]), (e, nb(1, 4), [1, 2, 3]), (e, nb(2, 1), [1, 2, 3]), (e, nb(1, 0, 0, 1, 3), [1, 2])] + [(e, nb(1, 0, t, 5), [1, 2]) for t in texts] + [
        (e + "s", nb(6, 0), [1, 2, 3]), (e + "s", nb(3, 1), [2, 3]), (e + "s", nb(5, 2), [2, 3]), (e + "s", nb(4, 3), [2, 3])]


def vmd(h, a):
    n = [(a >> (4 * i)) & 15 for i in range(7)]
    if h.endswith("t") and n[0] == 5:
        return "100 instructions, one of any name with up to 250 zeros and %d symbolic digits" % n[1]
    if h.endswith("t"):
        return ["instruction texts of up to %d symbolic characters" % n[1], "%d instructions with operands of up to %d symbolic digits%s" % (n[2], n[1], ", symbolic white space" if n[1] & 1 else ""),
                "operands near the limits and up to %d symbolic characters" % n[1], "each name, up to %d symbolic characters behind it" % n[1], "5 texts with up to %d neighbouring characters replaced" % n[1]][n[0]]
    if h.endswith("s"):
        return ["calculator scripts of up to %d symbolic characters" % n[0], "scripts of %d numbers of symbolic digits and operators" % n[0], "numbers of 17 to 20 digits and up to %d symbolic ones" % n[0], "sums and differences at the limits with numbers of %d symbolic digits" % n[0], "20, 40 or 60 numbers, then as many operators, with %d symbolic characters" % n[0]][n[1]]
    return "%s, up to %d symbolic 64-bit numbers stacked" % (["every instruction but powers%s" % (", %d in sequence" % n[4] if n[4] else ""), "powers of 10, 2, 2^32, any exponent", "powers of 0 and 1", "powers of any base, small exponents", "powers of further bases, any exponent"][n[1]], n[0]) + (", above %d given ones" % (100 * n[5]) if n[5] else "") + (
        "; number text: form %d and up to %d symbolic characters" % (n[2], n[3]) if n[1] == 0 else "")


def textd(h, a):
    n = [(a >> (4 * i)) & 15 for i in range(9)]
    if h == "h_c10d":
        return "the documented top-level directive, three symbolic terminals"
    if h == "h_c08" and (a >> 36 & 15):
        return "long text %d with a symbolic character%s" % (a >> 36 & 15, ", beyond ASCII too" if n[7] else "")
    if h == "h_c10" and n[8]:
        return "big grammar with overrides, form %d%s" % (n[8], ", three hash orders" if n[7] else "")
    if h == "h_c08":
        return "%d rules of up to %d alternatives of up to %d elements, terminals of up to %d parts, %s%s%s%s" % (n[0], n[1], n[2], n[3], "names of up to %d symbolic characters" % n[4] if n[4] else "given names",
            ", %d gaps widened by up to %d characters" % (n[5], n[6]) if n[5] else "", ", beyond ASCII too" if n[7] else "", ", overrides and sections" if n[8] else "")
    if h == "h_c09":
        return ["any text of up to %d characters", "%d neighbouring characters of a sample replaced", "%d characters inserted into a sample", "up to %d characters deleted from a sample, or its end cut and replaced",
                "two characters of a sample swapped or one doubled, %d replaced",
                "%d: long text %d with a character replaced, inserted or removed, or cut"][n[0]] % ((n[1], n[2]) if n[0] == 5 else n[1]) + (", beyond ASCII too" if n[3] else "")
    if h == "h_c10":
        return "%d rules of up to %d alternatives of up to %d elements, up to %d terminal occurrences, up to %d overrides%s%s" % (n[0], n[1], n[2], n[3], n[4], ", a default for all rules" if n[5] else "", ", missing names" if n[6] else "")
    if n[5]:
        return "a section of 300 characters, one symbolic, VM mode %d%s" % (n[1], ", the VM refuses somewhere" if n[4] else "")
    return "sections of up to %d characters, VM mode %d, surrounding text %d%s%s" % (n[0], n[1], n[2], ", beyond ASCII too" if n[3] else "", ", the VM refuses somewhere" if n[4] else "")


def c7(c, earlier, seeds, few=0):
    return c | earlier << 40 | seeds << 44 | few << 48


def c19(c, free, third):
    return c | free << 40 | third << 44


def edits(c, n):
    return c | n << 40


def bundled(c, n, uni, v):
    return c | n << 40 | uni << 44 | v << 48


def given(c, kind):
    return c | kind << 40


def x22(h, a):
    return describe_cfg(a & (1 << 40) - 1) + "; up to %d changes of the tree at any executions" % (a >> 40 & 15)


def x23(h, a):
    return describe_cfg(a & (1 << 40) - 1) + "; %s VM, sections of up to %d symbolic characters%s in any rules" % (["null", "counting"][a >> 48 & 15], a >> 40 & 15, ", any Unicode scalar value," if a >> 44 & 1 else "")


def driven(c, gaps, ways, most):
    return c | gaps << 40 | ways << 44 | most << 48


def x25(h, a):
    return "tables over " + describe_cfg(a & (1 << 40) - 1) + "; each alternative entered under up to %d symbolic characters and the end, %d arrangements of the elements%s" % (a >> 48 & 15, a >> 44 & 15, "; a table, an element or the start missing" if a >> 40 & 15 else "")


def x26(h, a):
    n = [(a >> (4 * i)) & 15 for i in range(3)]
    return ["a terminal from", "an element from", "an alternative from", "the alternatives from", "two rules from", "alternatives from a sample, anywhere replaced by", "two rules from a sample, anywhere replaced by"][n[0]] + (" every text of up to" if n[0] < 5 else "") + " %d symbolic characters%s" % (n[1], " (also beyond ASCII)" if n[2] else "")


def x24(h, a):
    n = [(a >> (4 * i)) & 15 for i in range(4)]
    if h == "h_c24b":
        return "a default ignored production that is no element" if n[3] else "every set of %d alternatives of up to %d symbols of rules built from 2 non-terminals, 2 terminals and 2 indices of no element; then a parser without some of the elements or tables, scripts of up to %d symbolic characters" % tuple(n[:3])
    return ["FIRST of sequences", "FOLLOW", "tables", "prediction sets"][a >> 40 & 15] + " from given sets over two further symbolic characters, any of them missing; " + describe_cfg(a & (1 << 40) - 1, False)


def x27(h, a):
    n = [(a >> (4 * i)) & 15 for i in range(3)]
    if n[0] > 1:
        return ("the simple machine, " if n[0] == 2 else "the stack machine, ") + vmd("h_c13s", a >> 4)
    return "%s machine, up to %d instructions, registers with %d symbolic bits" % (["simple", "stack"][n[0]], n[1], n[2])


GR_BOUNDS = "every grammar of the stated sizes over symbolic terminals, and grammars of up to 56 rules of ten given shapes with a symbolic character (thorough: three); outside: other bigger grammars"
PROPS = {
    "C01": scripts("h_c01", [1, 2, 3], SCRIPT_BOUNDS),
    "C02": scripts("h_c02", [1], SCRIPT_BOUNDS),
    "C03": scripts("h_c03", [1, 2, 3], SCRIPT_BOUNDS + "; grammars all of whose non-terminals derive some text"),
    "C11": scripts("h_c11", [1, 2, 3], SCRIPT_BOUNDS + "; the start rule carries three instructions, the others one, two, none, four", TREES),
    "C04": gr("h_c04", [1], [
        (cfg(0, 2, 2, 2, 4, 1, 0, [NOLR, HASH]), [1, 2]),
        (cfg(0, 2, 2, 2, 2, 2, 0, [NOLR, EMPTYT]), None),
        (cfg(0, 3, 2, 2, 2, 1, 0, [NOLR, SHORT, REACH]), None),
        (cfg(1, tlen=2, o=[HASH]), [1, 2]),
        (cfg(2, 5, 6, 0, 3, 1), None),
    ], [
        (cfg(0, 2, 2, 3, 4, 1, 0, [NOLR]), None),
        (cfg(0, 2, 3, 2, 3, 1, 0, [NOLR, HASH]), None),
        (cfg(0, 3, 2, 2, 3, 1, 0, [NOLR]), None),
        (cfg(2, 8, 4, 0, 2, 1, 0, [DIST]), None),
    ], GR_BOUNDS),
    "C05": gr("h_c05", [1], [
        (cfg(0, 2, 2, 2, 4, 1, 0, [NOLR, START]), None),
        (cfg(0, 2, 2, 3, 2, 1, 0, [NOLR]), None),
        (cfg(1, tlen=2, o=[HASH, START]), None),
        (cfg(2, 5, 6, 0, 3, 1), None),
        (cfg(2, 7, 4, 0, 2, 1, 0, [DIST]), None),
        (cfg(0, 3, 2, 2, 2, 1, 0, [NOLR, SHORT, REACH]), None),
    ], [
        (cfg(0, 3, 2, 2, 2, 1, 0, [NOLR, REACH]), None),
        (cfg(0, 2, 3, 3, 2, 1, 0, [NOLR]), None),
        (cfg(0, 2, 2, 2, 4, 2, 0, [NOLR, START, HASH]), None),
        (cfg(2, 9, 4, 0, 2, 1, 0, [DIST]), None),
        (cfg(2, 6, 6, 0, 3, 1, 0, [HASH]), None),
    ], GR_BOUNDS),
    "C06": gr("h_c06", [1, 2], [
        (cfg(0, 2, 2, 2, 3, 1, 0, [UNDEF]), [1, 2, 3, 4]),
        (cfg(0, 2, 2, 2, 2, 2, 0, [EMPTYT]), None),
        (cfg(0, 1, 3, 3, 4, 1, 0, []), None),
        (cfg(0, 3, 2, 2, 2, 1, 0, [SHORT, REACH]), None),
        (cfg(0, 2, 2, 3, 2, 1, 0, [SHORT]), None),
        (cfg(0, 2, 2, 4, 1, 1, 0, [SHORT]), None),
        (cfg(1, tlen=2), None),
        (cfg(2, 5, 6, 0, 3, 1), None),
    ], [
        (cfg(0, 2, 2, 3, 3, 1, 0, []), None),
        (cfg(0, 2, 3, 2, 3, 1, 0, []), None),
        (cfg(0, 3, 2, 2, 2, 1, 0, [REACH]), None),
        (cfg(0, 3, 2, 3, 1, 1, 0, [SHORT, REACH]), None),
        (cfg(2, 7, 6, 0, 2, 1, 0, [DIST]), None),
    ], GR_BOUNDS),
    "C20": gr("h_c20", [1], [
        (cfg(0, 2, 2, 2, 3, 1, 0, [NOLR]), [1, 2]),
        (cfg(0, 2, 2, 2, 2, 2, 0, [NOLR, EMPTYT]), None),
        (cfg(0, 1, 3, 3, 4, 1, 0, [NOLR]), None),
        (cfg(0, 3, 2, 2, 2, 1, 0, [NOLR, SHORT, REACH]), None),
        (cfg(1, tlen=2, o=[HASH]), None),
        (cfg(2, 5, 6, 0, 3, 1), None),
    ], [
        (cfg(0, 2, 2, 3, 3, 1, 0, [NOLR]), None),
        (cfg(0, 2, 3, 2, 3, 1, 0, [NOLR]), None),
        (cfg(0, 3, 2, 2, 2, 1, 0, [NOLR, REACH]), None),
        (cfg(2, 7, 6, 0, 2, 1, 0, [DIST]), None),
    ], GR_BOUNDS),
    "C15": simple([("h_c15", nb(7, 0), [1, 2, 3, 4]), ("h_c15", nb(5, 3), [1, 2, 3, 4, 5]), ("h_c15", nb(6, 1), [1, 2, 3, 5])] + [("h_c15", nb(2, 0, f), []) for f in range(1, 6)] + [("h_c15", longer(nb(0, 0, 6), 8), [])],
                  [("h_c15", nb(8, 0), [1, 2, 3, 4]), ("h_c15", nb(7, 3), [1, 2, 3, 4, 5]), ("h_c15", nb(9, 0), [1, 2, 3, 4])],
                  lambda h, a: "66560 nodes added one after another to one node, each removed again or none" if a >> 8 & 15 == 6 else ("given history %d of hundreds of operations, then " % (a >> 8 & 15) if a >> 8 & 15 else "") + "all histories of up to %d operations%s%s" % (a & 15, ", also with ids never given out" if a >> 4 & 1 else "", ", changing data" if a >> 5 & 1 else ""),
                  "every history of the stated number of operations (add a root, add a child, remove a branch) on any node, alive or gone, with symbolic 64-bit data; compared with a plain model after every operation; "
                  "and every such history of 2 operations on trees of up to 600 nodes, wide, deep or torn down again; two histories of 66560 additions (and removals)"),
    "C16": simple([("h_c16", nb(4, 2), [1, 2, 3, 4]), ("h_c16", nb(5, 3, 0, 0, 0, 0, 2), [1, 2, 3, 4]), ("h_c16", nb(3, 2, 2, 2, 1), [1, 2, 3, 6]), ("h_c16", nb(4, 2, 0, 0, 0, 1), [1, 2, 3]), ("h_c16", nb(5, 3), [1, 2, 3, 4])] + [("h_c16", nb(o, 0, 0, 0, 0, 0, 0, f), []) for f in (1, 2, 3) for o in (0, 1)] + [("h_c16", longer(nb(0, 0, 0, 0, 0, 0, 0, 4), k), []) for k in (2, 8)],
                  [("h_c16", nb(6, 3, 0, 0, 0, 0, 2), [1, 2, 3, 4]), ("h_c16", nb(4, 3, 2, 2, 1), [1, 2, 3, 6]), ("h_c16", nb(6, 2), [1, 2, 3, 4])],
                  lambda h, a: "%d edges of one node, the first id 0 or chosen" % (260 << (a >> 60)) if a >> 28 & 15 == 4 else "given graph %d of hundreds of edges, then %d operations" % (a >> 28 & 15, a & 15) if a >> 28 & 15 else "histories of %d operations on %d nodes%s%s, edge ids of %d bits" % (a & 15, a >> 4 & 15, ", grafting a graph of %d operations and %d nodes, then %d more operations" % (a >> 8 & 15, a >> 12 & 15, a >> 16 & 15) if a >> 8 & 255 else "",
                                                                                ", from default()" if a >> 20 & 1 else "", (a >> 24 & 15) * 4 or 64),
                  "every history of the stated operations, edge ids fully symbolic below the maximum"),
    "C17": simple([("h_c17", nb(3, 3, 0, 0, 0, 4), [2]), ("h_c17", nb(3, 1, 2, 1, 0, 4, 4), [1, 2]), ("h_c17", nb(2, 1, 1, 1, 1, 4, 4), [1, 2]), ("h_c17", nb(4, 1, 2, 1, 0, 3, 3), [1, 2]), ("h_c17", nb(0, 0, 1, 1, 0, 4, 4, 0, 1), [1, 2]), ("h_c17", nb(0, 0, 1, 1, 1, 3, 3, 0, 1), [2]), ("h_c17", longer(nb(0, 0, 1, 0, 0, 0, 3, 0, 1), 8), []), ("h_c17", longer(nb(0, 0, 1, 1, 0, 3, 3, 1, 1), 8), [])],
                  [("h_c17", nb(4, 4, 0, 0, 0, 4), [2]), ("h_c17", nb(3, 1, 2, 1, 1, 3, 3, 1), [1, 2]), ("h_c17", nb(4, 2, 2, 1, 0, 4, 4), [1, 2]), ("h_c17", nb(5, 1, 3, 1, 0, 3, 3), [1, 2]), ("h_c17", nb(0, 1, 1, 0, 1, 4, 4, 0, 1), [1, 2]), ("h_c17", nb(0, 1, 2, 1, 0, 4, 4, 0, 1), [1, 2]), ("h_c17", longer(nb(0, 0, 2, 1, 0, 3, 3, 1, 1), 8), []), ("h_c17", longer(nb(0, 1, 2, 1, 1, 4, 4, 0, 1), 2), [])],
                  lambda h, a: ("a text of %d characters, two of them symbolic; " % (400 << (a >> 60)) if a >> 32 & 15 else "") + "texts of up to %d characters%s; %d operations, then %d in a nested reader, then %d" % (a & 15, " beyond ASCII too" if a >> 16 & 1 else "", a >> 4 & 15, a >> 8 & 15, a >> 12 & 15),
                  "every text of the stated length, stop and escape characters symbolic or absent on both levels, every sequence of read operations of the stated length, then reading to the end; texts of 400 characters with two symbolic ones at chosen places, marks of four kinds, up to 290 characters taken in the nested reader beforehand. "
                  "Characters: ASCII, or any Unicode scalar value"),
    "C18": simple([("h_c18", nb(7, 7), [1, 2, 3, 5, 6, 8, 9]), ("h_c18", nb(3, 7, 1), [1, 2, 3, 5, 6, 8, 9]), ("h_c18", nb(3, 7, 3), [1, 2, 3, 5, 6, 8, 9]), ("h_c18", nb(4, 2, 0, 1), [3, 4]), ("h_c18", nb(4, 3, 0, 2), [5, 7]), ("h_c18", nb(4, 3, 0, 3), [6, 7]),
                   ("h_c18", nb(3, 7, 0, 4), [2, 3, 5, 8]), ("h_c18", nb(3, 7, 0, 5), [2, 3, 4, 5, 7, 8]), ("h_c18", nb(3, 7, 0, 6), [6, 7, 8]), ("h_c18", nb(3, 7, 0, 7), [2, 4, 7, 8]), ("h_c18", nb(5, 7, 0, 0, 2, 1), [1, 2, 3, 5, 6, 8, 9])] + [("h_c18", nb(2, 7, 0, 0, 0, 0, f), []) for f in range(1, 6)] + [("h_c18", nb(1, 7, 1, 0, 0, 0, f), []) for f in range(1, 6)] + [("h_c18", longer(nb(1, 7, 0, 0, 0, 0, f), 8 if f < 4 else 2), []) for f in range(1, 6)],
                  [("h_c18", nb(14, 7), [1, 2, 3, 5, 6, 8, 9]), ("h_c18", nb(4, 7, 1), [1, 2, 3, 5, 6, 8, 9]), ("h_c18", nb(6, 7, 0, 1), [3, 4]), ("h_c18", nb(6, 7, 0, 2), [5, 7]), ("h_c18", nb(6, 7, 0, 3), [6, 7]),
                   ("h_c18", nb(9, 7, 0, 0, 3, 1), [1, 2, 3, 5, 6, 8, 9])] + [("h_c18", nb(2, 7, 1, 0, 0, 0, f), []) for f in range(1, 6)],
                  lambda h, a: "%s on texts of %s up to %d symbolic characters%s%s%s" % ("every helper" if a >> 4 & 15 == 7 else "helper %d" % (a >> 4 & 15), ["", "a number of 18 digits and", "a number of 17 digits and", "a negative number of 17 digits and",
                      "21 zeros and", "19 digits near the limit and", "a negative number of 18 digits and", "20 nines and"][a >> 12 & 7] or ["", "300 digits and", "a name of 300 characters and", "300 spaces and", "300 zeros and", "a minus, 299 zeros and"][a >> 24 & 7].replace("300", str(300 << (a >> 60))).replace("299", str((300 << (a >> 60)) - 1)), a & 15, ", beyond ASCII too" if a >> 8 & 1 else "", ", after %d characters" % (a >> 16 & 15) if a >> 16 & 15 else "", ", with a symbolic stop character" if a >> 20 & 1 else ""),
                  "every text of the stated form and length, each character any of ASCII (or also one of several characters of 2 to 4 bytes); in the tokens of 300 characters (digits, names and spaces also of 76800) one at a chosen place is symbolic; outside: other longer texts, other Unicode characters"),
    "C21": simple([("h_c21", nb(5, 2), [1, 2, 3, 4, 5, 6]), ("h_c21", nb(4, 3), [1, 2, 3, 5, 6]), ("h_c21", nb(3, 2, 1), [1, 2, 3, 6]), ("h_c21", nb(1, 1, 0, 1), [])],
                  [("h_c21", nb(6, 2), [1, 2, 3, 4, 5, 6]), ("h_c21", nb(5, 3), [1, 2, 3, 4, 5, 6]), ("h_c21", nb(6, 3), [1, 2, 3, 4, 5, 6])],
                  lambda h, a: ("many nodes first, then " if a >> 12 & 15 else "") + "all histories of %d operations on %d names%s" % (a & 15, a >> 4 & 15, ", from default()" if a >> 8 & 1 else ""),
                  "every history of the stated number of operations, names and data fully symbolic 64-bit numbers; and every single operation on a graph of many nodes"),
    "C13": simple(vmq("h_c13", [1, 4, 5]), vmt("h_c13", [1, 4, 5]), lambda h, a: vmd(h, a),
                  "every instruction in every state with up to 2 (thorough: 3) stacked numbers, also above 300 given ones, and any two registers, all of 64 bits, and any number text at the node of up to 3 symbolic characters behind a chosen beginning, or behind 300 zeros or nines; "
                  "powers: chosen bases with any exponent, any base with exponents up to 1 (6 bits: 2); calculator scripts of the stated length with the grammar of examples/simple_stack_based_math.txt. "
                  "An error is also accepted where a power or product on the way cannot be represented although the end result could"),
    "C14": simple(vmq("h_c14", [1, 2, 3, 4, 5]) + [("h_c14t", nb(5, 0), [1, 2]), ("h_c14t", nb(5, 2), [1]), ("h_c14t", nb(0, 5), [1, 2]), ("h_c14t", nb(1, 1, 2), [1]), ("h_c14t", nb(1, 2, 1), [1]), ("h_c14t", nb(2, 3), [1, 2]), ("h_c14t", nb(3, 3), [1, 2]), ("h_c14t", nb(4, 2), [1, 2])],
                  vmt("h_c14", [1, 2, 3, 4, 5]) + [("h_c14t", nb(0, 8), [1, 2]), ("h_c14t", nb(1, 1, 3), [1]), ("h_c14t", nb(1, 3, 2), [1]), ("h_c14t", nb(2, 5), [1, 2]), ("h_c14t", nb(3, 5), [1, 2])], lambda h, a: vmd(h, a),
                  "as for C13 with signed numbers and examples/stack_based_math.txt; instruction texts: every ASCII text of the stated length, every sequence of instructions with symbolic operands and white space, operands near the limits, "
                  "every name followed by symbolic characters, texts with one or two characters replaced. Unspecified, hence not asserted: names of no instruction, white space before ';'"),
    "C08": simple([("h_c08", nb(*x), c) for x, c in [
        ((1, 1, 2, 1, 0, 1, 1), [1]), ((1, 2, 2, 2, 1), []), ((1, 1, 1, 2, 1, 3, 2), [1]), ((1, 1, 1, 4, 3, 1, 1), [1]), ((2, 1, 1, 1, 2), [2]), ((1, 2, 1, 2, 1, 0, 0, 1), []),
        ((1, 1, 1, 1, 0, 1, 2, 1), [1]), ((2, 1, 1, 1, 1, 1, 1, 0, 1), [1, 2]), ((2, 2, 1, 2, 2), [2]), ((2, 1, 1, 1, 1, 0, 0, 0, 1), [2]), ((1, 2, 2, 0, 3, 0, 0, 1), []), ((2, 1, 2, 0, 1, 0, 0, 1, 1), [2]), ((1, 1, 1, 1, 0, 2, 2, 3), [1])]] + [("h_c08", nb(0, 0, 0, 0, 0, 0, 0, u, 0, f), [3]) for f in range(1, 9) for u in (0, 1)] + [("h_c08", longer(nb(0, 0, 0, 0, 0, 0, 0, 0, 0, f), 8), [3]) for f in (5, 6, 8)],
        [("h_c08", nb(*x), c) for x, c in [
        ((2, 2, 2, 2), []), ((3, 1, 2, 1, 1), [2]), ((2, 1, 2, 2, 1, 1, 2, 1), [1, 2]), ((1, 2, 2, 2, 0, 1, 1, 0, 1), [1]), ((1, 2, 1, 3, 1, 0, 0, 1), []), ((2, 2, 1, 1, 0, 1, 1, 0, 1), [1]), ((3, 2, 1, 1, 1), [2])]],
        lambda h, a: textd(h, a),
        "every grammar text of the stated sizes, and long texts of eight forms (45 rules, 60 elements, 60 alternatives, names of 150 characters, a terminal or section of 300 or 76800, gaps of 300 or 76800, one name defined 50 times) with one symbolic character: names and terminal contents symbolic (a terminal's characters anything but a bare quote, escapes included), the stated number of gaps widened by symbolic white space, all others written as tightly as possible; "
        "white space: the 6 ASCII characters, or U+0020, U+0085, U+00A0, U+2003; names beyond ASCII: made of five letters and three digits or number signs of 2 to 4 bytes as well. Outside: white space within '$[IGNORE:x]', longer texts, other Unicode characters"),
    "C09": simple([("h_c09", nb(*x), c) for x, c in [
        ((0, 7), [1, 3, 4, 5, 6]), ((0, 9), [1, 3, 4, 5, 6]), ((0, 5, 0, 1), [1, 3, 4, 5]), ((1, 1, 15), [1, 2, 3, 4, 5, 6]), ((1, 3, 15), [1, 2, 3, 4, 5, 6]), ((2, 3, 15), [1, 2, 3, 4, 5, 6]), ((3, 1, 15), [1, 2, 3]),
        ((3, 3, 15), [1, 2, 3, 4, 5, 6]), ((4, 0, 15), [1, 3]), ((1, 2, 15, 1), [1, 2, 3, 4, 5, 6]), ((1, 4, 15), [1, 2, 3]), ((4, 1, 15), [1, 2, 3]), ((1, 1, 15, 3), [1, 2, 3, 4, 5, 6]), ((2, 2, 15, 3), [1, 2, 3, 4, 5, 6]), ((0, 4, 0, 3), [1, 3, 4, 5])] + [((5, 0, f), []) for f in range(1, 9)]] + [("h_c09", longer(nb(5, 0, f), 3), []) for f in (5, 8)],
        [("h_c09", nb(*x), c) for x, c in [
        ((0, 12), [1, 3, 4, 5, 6]), ((0, 7, 0, 1), [1, 3, 4, 5]), ((1, 6, 15), [1, 2, 3]), ((2, 6, 15), [1, 2, 3]), ((3, 6, 15), [1, 2, 3]), ((1, 4, 15, 1), [1, 2, 3]), ((1, 8, 15), [1, 2, 3])] + [((5, 0, f, 1), []) for f in range(1, 9)]],
        lambda h, a: textd(h, a),
        "every text of up to the stated number of characters (any of ASCII, or also one each of 2, 3 and 4 bytes, or, in texts of up to 4 characters and with up to 2 in samples, of 17 letters, numbers, spaces, marks and look-alikes beyond ASCII), the long texts of C08 with a symbolic character put at one of 32 places or their end cut off there, and 8 sample grammars with the stated symbolic characters replaced, inserted, deleted, cut or swapped at every place. "
        "Undocumented texts (top-level '$', other '$[..]' operations, white space inside them, overrides on a second definition) are only required to end with a result"),
    "C10": simple([("h_c10", nb(*x), c) for x, c in [
        ((2, 1, 2, 2, 2), [1, 2]), ((2, 2, 1, 2, 2), []), ((3, 1, 2, 1, 1), [1, 2]), ((2, 1, 2, 1, 1, 1), [1, 2]), ((2, 1, 2, 1, 2, 0, 1), [1, 2, 3]), ((2, 1, 3, 2, 2), [1, 2]), ((2, 2, 2, 1, 1), [1, 2])]] + [("h_c10d", 0, [])] + [("h_c10", nb(0, 0, 0, 0, 0, 0, 0, u, f), []) for f in range(1, 6) for u in (0, 1)],
        [("h_c10", nb(*x), c) for x, c in [
        ((3, 1, 2, 2, 2), [1, 2]), ((2, 2, 2, 1, 2), [1, 2]), ((2, 2, 2, 2, 2), [1, 2]), ((4, 1, 2, 1, 1), [1, 2]), ((3, 1, 3, 1, 2, 0, 1), [1, 2, 3]), ((3, 1, 2, 1, 1, 1), [1, 2])]],
        lambda h, a: textd(h, a),
        "every grammar text of the stated numbers of rules, alternatives, elements, terminal occurrences and overrides, and big ones of five forms in three hash orders (overrides: any rule, '#', or a name without a rule), symbolic terminals; the default set beforehand through the public field, "
        "and the documented top-level directive on one grammar with symbolic terminals. Each name is defined once and every name used has a rule (except ignored names)"),
    "C12": simple([("h_c12", nb(*x), c) for x, c in [
        ((6, 10, 0), [1, 3]), ((8, 0, 0), [1, 3]), ((6, 10, 1), [1, 3]), ((6, 10, 2), [1, 3]), ((5, 10, 3), [1, 3]), ((5, 10, 4), [1, 3]), ((3, 8, 0), [1, 3]), ((7, 9, 0), [1, 3]), ((5, 9, 1), [1, 3]), ((6, 10, 0, 1), [1, 3]), ((6, 10, 0, 0, 1), [1, 2, 3]), ((3, 8, 1, 0, 1), [2]), ((2, 10, 0, 3), [1, 3]), ((1, 10, 2, 3), [1, 3])]] + [("h_c12", nb(0, m, 0, u, f, 1), [1 + f]) for m, u in ((10, 0), (10, 1), (7, 0)) for f in (0, 1)] + [("h_c12", nb(0, 9, 0, 0, 0, 1), [1])] + [("h_c12", longer(nb(0, 10, 0, 0, f, 1), 8), [1 + f]) for f in (0, 1)],
        [("h_c12", nb(*x), c) for x, c in [
        ((12, 0, 0), [1, 3]), ((9, 10, 1), [1, 3]), ((9, 10, 2), [1, 3]), ((4, 8, 0), [1, 3]), ((9, 9, 0), [1, 3]), ((8, 10, 0, 1), [1, 3]), ((9, 10, 0, 0, 1), [1, 2, 3]), ((5, 8, 0), [1, 3])]],
        lambda h, a: textd(h, a),
        "every section text of up to the stated number of characters, and one of 300 characters with a symbolic one (which may also close the section and go on with further rules), in 5 surrounding texts (names defined once or twice), read by VMs that take, peek, peek repeatedly, read conditionally, peek mutably, mix all these, or use a reader of their own"),
    "C07": simple([("h_c07", c7(*x), c) for x, c in [
        ((cfg(0, 2, 2, 2, 2, 1, 3, G), 0, 6), [1, 2, 3]), ((cfg(1, tlen=1, slen=4), 0, 6), [1, 2]), ((cfg(0, 2, 2, 2, 2, 1, 2, G + [TEXT]), 0, 4), [1, 2, 3]), ((cfg(0, 3, 2, 2, 2, 1, 2, [SHORT] + G), 0, 2), []),
        ((cfg(2, 4, 6, 0, 2, 1, 2, [DIST]), 0, 4), [1, 2]), ((cfg(0, 1, 2, 2, 3, 1, 2, [UNDEF]), 0, 6, 1), [1, 2, 3]), ((cfg(1, tlen=1, slen=4), 0, 6, 1), [1, 2]),
        ((cfg(0, 2, 2, 2, 2, 1, 2, G), 1, 0), [1, 2]), ((cfg(1, tlen=1, slen=3), 1, 0), [1, 2]), ((cfg(1, tlen=1, slen=2), 2, 0), [1, 2]), ((cfg(4, tlen=1, slen=5), 1, 0), [1, 2])] + [((large(s, z), 0, 4), []) for s, z in ((0, 5), (3, 8), (8, 5), (9, 5), (1, 4))] + [((large(5, 13, dbl=8), 0, 2), []), ((large(5, 13, dbl=8), 1, 0), [])] + [
        ((large(0, 2), 1, 0), []), ((large(4, 2), 1, 0), []), ((large(7, 3), 1, 0), []), ((cfg(1, tlen=1, slen=2), 15, 0), [1, 2]), ((large(6, 2), 15, 0), [])]] + [
        ("h_c07r", nb(2, 1, 2, 1, 2, 0, 1, 6), [1, 2]), ("h_c07r", nb(2, 1, 2, 1, 1, 1, 0, 4), [1]), ("h_c07r", nb(3, 1, 2, 0, 1, 0, 0, 2), [1])],
        [("h_c07", c7(*x), c) for x, c in [
        ((cfg(0, 2, 2, 2, 3, 1, 3, G), 0, 10), [1, 2, 3]), ((cfg(1, tlen=2, slen=6), 0, 10), [1, 2]), ((cfg(0, 3, 2, 2, 2, 1, 2, G + [SHORT]), 0, 6), [1, 2, 3]), ((cfg(0, 2, 2, 2, 2, 1, 2, G + [TEXT, REV]), 0, 10), [1, 2, 3]),
        ((cfg(2, 6, 6, 0, 2, 1, 2, [DIST]), 0, 6), []), ((cfg(0, 2, 2, 2, 3, 1, 2), 0, 10, 1), [1, 2, 3]), ((cfg(1, tlen=1, slen=4), 2, 0), [1, 2]), ((cfg(1, tlen=1, slen=2), 3, 0), [1, 2]), ((cfg(4, tlen=1, slen=8), 1, 0), [1, 2]),
        ((cfg(0, 2, 2, 2, 3, 1, 3, G), 1, 0), [1, 2]), ((cfg(0, 2, 2, 2, 2, 1, 2, G), 15, 0), [1, 2])]] + [
        ("h_c07r", nb(3, 1, 2, 1, 1, 0, 0, 6), [1]), ("h_c07r", nb(3, 1, 2, 1, 2, 0, 0, 4), [1]), ("h_c07r", nb(2, 2, 2, 1, 2, 0, 0, 6), [1])],
        lambda h, a: ("texts with overrides: " + textd("h_c10", a & 0xfffffff) + "; %d orders" % (a >> 28 & 15)) if h == "h_c07r" else describe_cfg(a & (1 << 40) - 1) + (
            ("; the same parser after %d other scripts of that length" % (a >> 40 & 15) if (a >> 40 & 15) < 15 else "; the same parser after one other script, parsed 140 times") if a >> 40 & 15 else "; insertion order against %d other orders" % (a >> 44 & 15)) + ("; characters: one of four, tables of characters permuted too" if a >> 48 & 1 else ""),
        "hash orders: insertion order compared with up to 10 other orders (reversal, rotations, permutations) of all tables keyed by rules, and, for grammars over four given characters, of the tables keyed by characters; histories: up to 3 earlier scripts, or one 140 times; grammars of up to 40 rules of five shapes too. "
        "Compared: acceptance of the grammar, kind, position and character of the error, tree with node ids, executions with node and subtree. The text 'expected' of an error and which error refuses a grammar are not compared", budget=(300, 720)),
    "C19": simple([("h_c19a", nb(3, 2), [1, 2]), ("h_c19a", nb(4, 1), [1, 2]), ("h_c19b", nb(3, 2, 2), [1, 2]), ("h_c19b", nb(2, 3, 3), [1, 2]), ("h_c19a", nb(1, 2, 1), []), ("h_c19a", nb(2, 1, 1), [])] + [("h_c19c", c19(*x), c) for x, c in [
        ((large(0, 4), 0, 0), []), ((large(3, 6), 0, 1), []), ((large(4, 5), 0, 0), []), ((large(9, 4), 0, 1), []),
        ((cfg(0, 2, 2, 2, 2, 1, 3, G), 0, 0), [1, 2, 3, 4]), ((cfg(0, 2, 2, 2, 1, 1, 2, G), 4, 1), [1, 2, 3, 4]), ((cfg(1, tlen=1, slen=3), 0, 1), [1, 2, 3, 4]), ((cfg(4, tlen=1, slen=3), 4, 0), [1, 2]), ((cfg(1, tlen=1, slen=2), 2, 0), [1, 2, 3, 4]),
        ((cfg(0, 1, 2, 2, 2, 2, 3, G), 4, 1), [1, 2, 3])]] + [("h_c19d", a, c) for a, c in [
        (cfg(4, tlen=1, slen=4), [1, 2, 3]), (cfg(5, tlen=1, slen=2), [1, 2, 3]), (cfg(9, tlen=1, slen=3), [1, 2, 3]), (cfg(0, 1, 2, 2, 2, 1, 2, [NOLR, UNI]), [1, 2, 3]), (cfg(0, 2, 2, 2, 1, 1, 1, G), [1, 2, 3]), (large(0, 4), []), (large(9, 3), [])]],
        [("h_c19d", a, c) for a, c in [(cfg(0, 2, 2, 2, 2, 1, 2, G), [1, 2, 3]), (cfg(1, tlen=1, slen=1), [1, 2, 3]), (large(3, 4), [])]] + [("h_c19a", nb(5, 1), [1, 2]), ("h_c19a", nb(3, 3), [1, 2]), ("h_c19b", nb(4, 2, 2), [1, 2])] + [("h_c19c", c19(*x), c) for x, c in [
        ((cfg(0, 2, 2, 2, 2, 1, 2, G), 6, 1), [1, 2, 3, 4]), ((cfg(1, tlen=1, slen=4), 4, 1), [1, 2, 3, 4]), ((cfg(0, 3, 2, 2, 2, 1, 2, G + [SHORT]), 0, 0), [1, 2, 3, 4]), ((cfg(1, tlen=2, slen=6), 0, 1), [1, 2, 3, 4]), ((cfg(0, 1, 2, 2, 2, 1, 3, [UNI]), 2, 0), [1, 2])]],
        lambda h, a: {"h_c19a": "histories of %d requests with names of %d symbolic letters%s" % (a & 15, a >> 4 & 15, ", many elements beforehand" if a >> 8 & 15 else ""), "h_c19b": "histories of %d building operations on %d rules" % (a & 15, a >> 4 & 15)}.get(h) or
            "grammar put together from text and operations: " + describe_cfg(a & (1 << 40) - 1) + "; each rule or its first alternative from the text, before or after" if h == "h_c19d" else describe_cfg(a & (1 << 40) - 1) + "; any start, any rule called 'start'; %d free choices in the order of the building operations%s" % (a >> 40 & 15, "; also from a text with these names" if a >> 44 & 1 else ""),
        "every history of the stated number of requests or building operations; grammars of up to 40 rules of four shapes; every grammar of the stated sizes with every start symbol and every (or no) non-terminal named 'start', built through the API in the orders stated, or partly from text, and compared with the corresponding text on every script of the stated length"),
    "C22": simple([("h_c22", edits(*x), c) for x, c in [
        ((cfg(1, tlen=1, slen=3), 2), [1, 2, 3]), ((cfg(4, tlen=1, slen=5), 2), [1, 2, 3]), ((cfg(0, 2, 2, 2, 2, 1, 3, G), 1), [1, 2, 3]), ((cfg(4, tlen=1, slen=4), 2), [1, 2, 3]), ((cfg(0, 1, 2, 2, 2, 1, 3, [NOLR, UNI]), 2), [1, 2]), ((cfg(1, tlen=1, slen=2, o=[TEXT]), 1), [1, 2, 3]),
        ((large(0, 3), 1), []), ((large(4, 3), 1), []), ((large(6, 3), 1), []), ((large(7, 2), 1), []), ((large(9, 3), 1), [])]],
        [("h_c22", edits(*x), c) for x, c in [
        ((cfg(0, 1, 2, 2, 2, 1, 2, [NOLR]), 3), [1, 2]), ((cfg(0, 2, 2, 2, 2, 1, 2, G), 2), [1, 2, 3]), ((cfg(4, tlen=1, slen=4), 3), [1, 2, 3]), ((cfg(1, tlen=1, slen=5), 1), [1, 2, 3]), ((cfg(1, tlen=1, slen=2), 3), [1, 2, 3]), ((cfg(1, tlen=2, slen=3), 2), [1, 2, 3]), ((large(0, 4), 1), []), ((large(4, 4), 1), []), ((large(7, 3), 1), []), ((cfg(0, 3, 2, 2, 2, 1, 2, G + [SHORT]), 1), [])]],
        x22, "every grammar of the stated sizes, templates and given shapes of up to 14 (20) rules or levels; at every execution nothing or one of ten kinds of change (data of the node or a child, children added, removed or replaced, the node itself removed, the branch or data of the first or the latest node finished before), symbolic data; "
        "the stated number of changes in one parse. Outside: more changes, more kinds, removal of nodes not finished"),
    "C23": simple([("h_c23", bundled(*x, v), [1, 2] + [3] * v) for v in (0, 1) for x in ((cfg(1, tlen=1, slen=4, o=[TEXT]), 1, 0), (cfg(0, 2, 2, 2, 2, 1, 2, G + [TEXT]), 1, 1), (cfg(0, 1, 2, 2, 2, 1, 3, [NOLR, TEXT]), 2, 0), (large(0, 4, o=[TEXT]), 1, 0), (large(6, 6, o=[TEXT]), 1, 0), (large(7, 5, o=[TEXT]), 1, 0), (large(5, 13, o=[TEXT], dbl=8), 1, 0))],
        [("h_c23", bundled(*x, v), [1, 2] + [3] * v) for v in (0, 1) for x in ((cfg(1, tlen=1, slen=6, o=[TEXT]), 1, 0), (cfg(4, tlen=1, slen=9, o=[TEXT]), 2, 0), (cfg(0, 2, 2, 2, 2, 1, 3, G + [TEXT]), 1, 0), (cfg(0, 1, 2, 2, 1, 1, 2, [NOLR, TEXT]), 4, 0), (large(4, 5, o=[TEXT]), 1, 0))],
        x23, "every grammar of the stated sizes, templates and given shapes; any of the rules (of big grammars: of the first six) with a section of up to the stated number of symbolic characters other than a closing brace or backslash; every script of the stated length; any state below 2^63"),
    "C24": simple([("h_c24", given(*x), c) for x, c in [
        ((cfg(0, 1, 2, 2, 2, 1, 0, [UNDEF]), 0), [1, 2]), ((cfg(0, 2, 1, 2, 1, 1, 0, [UNDEF]), 0), [1, 2]), ((cfg(0, 2, 2, 2, 1, 1, 0, [REACH, NOLR]), 1), [1, 2]), ((cfg(0, 1, 2, 2, 2, 1, 0, [UNDEF]), 1), [1, 2]), ((cfg(0, 2, 2, 2, 1, 1, 0, [SHORT, NOLR, REACH]), 2), [1, 2]),
        ((cfg(0, 1, 2, 2, 2, 1, 0, [UNDEF]), 2), [1, 2]), ((cfg(0, 1, 3, 2, 2, 2), 2), [1, 2]), ((cfg(0, 1, 1, 1, 0, 1, 0, [UNDEF]), 3), [1, 2]), ((cfg(0, 2, 1, 1, 0, 1, 0), 3), [1, 2]), ((cfg(0, 1, 2, 2, 2, 1, 0, [EMPTYT]), 0), [1, 2]), ((cfg(0, 1, 2, 2, 2, 1, 0, [EMPTYT]), 1), [1, 2]), ((cfg(0, 1, 2, 2, 2, 1, 0, [EMPTYT]), 2), [1, 2])]] + [
        ("h_c24b", nb(2, 2, 2), [1, 2, 3]), ("h_c24b", nb(3, 1, 2), [1, 2, 3]), ("h_c24b", nb(0, 0, 0, 1), [1])],
        [("h_c24", given(*x), c) for x, c in [
        ((cfg(0, 1, 2, 3, 2, 1, 0, [UNDEF]), 0), [1, 2]), ((cfg(0, 2, 2, 2, 1, 1, 0, [SHORT]), 0), [1, 2]), ((cfg(0, 2, 1, 2, 1, 1, 0, [UNDEF]), 1), [1, 2]), ((cfg(0, 2, 2, 2, 2, 1, 0, [NOLR, REACH]), 1), [1, 2]), ((cfg(0, 2, 1, 2, 2, 1, 0), 2), [1, 2]), ((cfg(0, 2, 2, 2, 1, 1, 0, [SHORT]), 2), [1, 2]), ((cfg(0, 2, 1, 1, 0, 1, 0, [UNDEF]), 3), [1, 2]), ((cfg(0, 3, 1, 1, 0, 1, 0), 3), [1, 2])]] + [
        ("h_c24b", nb(2, 3, 2), [1, 2, 3]), ("h_c24b", nb(3, 2, 1), [1, 2, 3])],
        x24, "every grammar of the stated sizes; each non-terminal's given FIRST set missing or one of four sets over two further symbolic characters and the end of the script (which may equal each other or a terminal's), with or without the empty marker, each FOLLOW set missing or one of three; every rule set of up to three alternatives over four elements and two indices that are none. "
        "Outside: bigger grammars; the public fields filled by hand"),
    "C25": simple([("h_c25", driven(*x), c) for x, c in [
        ((cfg(0, 1, 2, 2, 2, 1, 3), 0, 3, 1), [1, 2, 3]), ((cfg(0, 2, 2, 2, 1, 1, 2, [REACH, SHORT]), 0, 1, 1), [1, 2, 3]), ((cfg(0, 1, 2, 2, 2, 1, 2, [UNDEF]), 1, 3, 1), [1, 3, 4]), ((cfg(0, 1, 2, 2, 2, 2, 2, [EMPTYT, UNI]), 0, 1, 1), [1, 3]),
        ((cfg(0, 1, 2, 1, 1, 1, 2, [UNDEF]), 1, 3, 2), [1, 3, 4]), ((cfg(1, tlen=1, slen=4), 0, 3, 1), [1, 2, 3]), ((cfg(1, tlen=1, slen=2), 1, 2, 1), [1, 2, 3, 4]), ((cfg(0, 2, 1, 2, 2, 1, 2, [REACH, UNDEF]), 1, 1, 1), [1, 3, 4])]],
        [("h_c25", driven(*x), c) for x, c in [
        ((cfg(0, 1, 2, 2, 2, 2, 3, [EMPTYT, UNI]), 0, 1, 1), [1, 2, 3]), ((cfg(1, tlen=1, slen=3), 1, 2, 2), [1, 2, 3, 4]), ((cfg(0, 1, 2, 3, 3, 1, 3), 0, 1, 2), [1, 2, 3]), ((cfg(0, 2, 2, 2, 2, 1, 2, [REACH, SHORT]), 0, 1, 1), [1, 2, 3]), ((cfg(0, 3, 1, 2, 1, 1, 2, [REACH]), 0, 1, 1), [1, 3]), ((cfg(1, tlen=2, slen=5), 0, 1, 1), [1, 2, 3])]],
        x25, "all tables of the stated sizes: alternatives of the stated numbers of symbols, entered under symbolic characters (all different within a table) and one of them perhaps under the end; every script of the stated length. Outside: tables that go round without taking a character, two non-terminals called 'start', Production::NotEmpty without elements"),
    "C26": simple([("h_c26", nb(*x), c) for x, c in [
        ((0, 12), [1, 2]), ((0, 5, 1), [1, 2]), ((1, 9), [1, 2]), ((1, 5, 1), [1, 2]), ((2, 7), [1, 2]), ((2, 5, 1), [1, 2]), ((3, 7), [1, 2]), ((3, 4, 1), [1, 2]), ((4, 8), [1, 2]), ((5, 3), [1, 2]), ((5, 2, 1), [1, 2]), ((6, 3), [1, 2]), ((6, 2, 1), [1, 2]), ((0, 3, 3), [1, 2]), ((1, 3, 3), [1, 2]), ((3, 3, 3), [1, 2]), ((6, 1, 3), [1, 2])]],
        [("h_c26", nb(*x), c) for x, c in [
        ((2, 9), [1, 2]), ((3, 9), [1, 2]), ((4, 11), [1, 2]), ((5, 5), [1, 2]), ((6, 4), [1, 2]), ((3, 6, 1), [1, 2]), ((4, 6, 1), [1, 2])]],
        x26, "every text of up to the stated number of characters, and two sample texts with that many neighbouring characters replaced anywhere; what is taken before an error is not compared, except that the reader of an element takes nothing where there is none"),
    "C27": simple([("h_c27", nb(*x), c) for x, c in [
        ((0, 1, 3), [1, 2]), ((1, 1, 3), [1, 2]), ((0, 2, 2), [1, 2]), ((1, 2, 2), [1, 2]), ((2, 2, 1), [1, 2]), ((3, 2, 1), [1, 2]), ((2, 1, 2), [1]), ((3, 1, 2), [1]), ((2, 2, 3), [1, 2]), ((3, 2, 3), [1, 2])]],
        [("h_c27", nb(*x), c) for x, c in [
        ((0, 1, 6), [1, 2]), ((1, 1, 6), [1, 2]), ((0, 3, 1), [1, 2]), ((1, 3, 1), [1, 2]), ((2, 3, 1), [1, 2]), ((3, 3, 1), [1, 2])]],
        x27, "every sequence of up to the stated number of instructions from states with up to two numbers on the stack, at a node with or without a number, and with registers around seven places (zero, powers of ten, the limits of the type) varied by symbolic bits, any error code below 4; calculator scripts as for C13 and C14. "
        "Outside: other values of registers; what a script prints after a flagged error or before a syntax error"),
    "C28": simple([("h_c28", nb(k, 3 if k != 5 else 2, n, u), [1]) for k, n, u in ((0, 3, 0), (0, 2, 1), (1, 0, 0), (2, 3, 0), (2, 2, 1), (3, 0, 0), (4, 3, 0), (4, 2, 1), (5, 0, 0), (6, 0, 0), (7, 0, 0), (7, 0, 1), (8, 0, 0), (9, 3, 0), (9, 2, 1))],
                  [("h_c28", nb(k, 3, n, u), [1]) for k, n, u in ((0, 6, 0), (0, 3, 1), (2, 6, 0), (2, 4, 1), (4, 6, 0), (4, 4, 1), (5, 0, 0), (9, 6, 0), (9, 4, 1))],
                  lambda h, a: ["unexpected characters", "end of input", "unknown operations", "grammar errors with an index", "unexpected elements", "node ids and tree errors with one", "missing children", "set members", "conversions", "errors of a named graph"][a & 15]
                  + (": numbers near eight places varied by %d symbolic bits" % (a >> 4 & 15) if a & 15 < 7 else "") + (", texts of up to %d symbolic characters" % (a >> 8 & 15) if a & 15 in (0, 2, 4) else "") + (", any Unicode scalar value" if a >> 12 & 1 else ""),
                  "every error with a position, index or id near eight places (0, 5, 98, 252, 999, 65530, 9999999998 and the largest; eight neighbours each), any character, texts of up to the stated number of symbolic characters; any set member; any 64-bit number for the conversions. Outside: other numbers, longer texts, the rest of the wording"),
}
