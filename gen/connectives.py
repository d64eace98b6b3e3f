#!/usr/bin/env python3
"""connectives.py SEED COUNT OUT: random textual compositions of the three-valued operators next to the same composition of oracle functions"""
import sys, random
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
R = random.Random(f"{seed}-{out.split('/')[-1]}")
V = ["a", "b", "c", "d"]

# every generator returns (text for the library, text for the oracle); the oracle text uses functions and parentheses only
def b3(n):
    k = R.randrange(16) if n > 0 else R.randrange(3)
    if k == 0: x = R.choice(V); return x, x
    if k == 1: x = R.choice(["T_TRUE", "T_FALSE", "T_UNKNOWN"]); return x, x
    if k == 2: x = R.choice(V); return f"id({x})", x
    if k in (3, 4, 5): l, r = b3(n-1), b3(n-1); return f"b3_or({l[0]}, {r[0]})", f"k_or({l[1]},{r[1]})"
    if k in (6, 7, 8): l, r = b3(n-1), b3(n-1); return f"b3_and({l[0]}, {r[0]})", f"k_and({l[1]},{r[1]})"
    if k in (9, 10): l = b3(n-1); return f"b3_not({l[0]})", f"k_not({l[1]})"
    if k == 11: c, l, r = cond(n-1), b3(n-1), b3(n-1); return f"{c[0]} ? {l[0]} : {r[0]}", f"(({c[1]}) ? ({l[1]}) : ({r[1]}))"
    if k == 12: f = b4(n-1); return f"b4_to_b3({f[0]})", f"k_43({f[1]})"
    if k == 13: l = b3(n-1); return f"({l[0]})", f"({l[1]})"
    if k == 14: l, r = dur(n-1), dur(n-1); return f"b3_lessthan({l[0]}, {r[0]})", f"k_lt({l[1]},{r[1]})"
    l = b3(n-1); return f"id({l[0]})", f"({l[1]})"
def b4(n):
    k = R.randrange(8) if n > 0 else R.randrange(2)
    if k == 0: return "f", "f"
    if k == 1: x = R.choice(["FV_TRUE", "FV_FALSE", "FV_UNKNOWN", "FV_SYMBOL"]); return x, x
    if k in (2, 3, 4, 5): l = b3(n-1); return f"b3_to_b4({l[0]})", f"k_34({l[1]})"
    if k == 6: c, l, r = cond(n-1), b4(n-1), b4(n-1); return f"{c[0]} ? {l[0]} : {r[0]}", f"(({c[1]}) ? ({l[1]}) : ({r[1]}))"
    l = b4(n-1); return f"({l[0]})", f"({l[1]})"
def at(t):        # an operand of == or of a logical operator: a macro, name or parenthesised text, as a reader of the text expects
    return t if t[0].replace("_", "").isalnum() or t[0].split("(")[0] in ("b3_or", "b3_and", "b3_not", "b3_to_b4", "b4_to_b3", "id", "b3_lessthan") and " ? " not in outside(t[0]) else (f"({t[0]})", t[1])
def outside(s):
    d, o = 0, ""
    for ch in s:
        if ch == "(": d += 1
        if d == 0: o += ch
        if ch == ")": d -= 1
    return o
def cond(n):
    k = R.randrange(5) if n > 0 else 0
    if k <= 1:
        l, r = at(b3(max(n-1, 0))), at(b3(max(n-1, 0))); o = R.choice(["==", "!="])
        return f"{l[0]} {o} {r[0]}", f"(({l[1]}) {o} ({r[1]}))"
    if k == 2:
        l, r = at(b4(n-1)), at(b4(n-1)); o = R.choice(["==", "!="])
        return f"{l[0]} {o} {r[0]}", f"(({l[1]}) {o} ({r[1]}))"
    l, r = cond(n-1), cond(n-1); o = R.choice(["&&", "||"])
    return f"({l[0]}) {o} ({r[0]})", f"(({l[1]}) {o} ({r[1]}))"
def num(n):
    k = R.randrange(5)
    if k == 0: x = str(R.randint(0, 9)); return x, x
    if k in (1, 2): x = R.choice(["x", "y"]); return x, x
    if k == 3: return "x + y", "(x + y)"
    c = cond(0); return f"{c[0]} ? x : y", f"(({c[1]}) ? x : y)"
def dur(n):
    k = R.randrange(7) if n > 0 else R.randrange(3)
    if k == 0: return "p", "p"
    if k == 1: return "q", "q"
    if k == 2:
        a = num(n); fl = R.choice([("u", "u"), ("false", "false"), ("w", "w"), ("u || w", "(u || w)"), ("u == w", "(u == w)")])
        return f"make_duration({a[0]}, {fl[0]})", f"k_dur({a[1]},{fl[1]})"
    if k in (3, 4): l, r = dur(n-1), dur(n-1); return f"sum_dur({l[0]}, {r[0]})", f"k_sum({l[1]},{r[1]})"
    if k == 5: l, r = dur(n-1), dur(n-1); return f"mult_dur({l[0]}, {r[0]})", f"k_mul({l[1]},{r[1]})"
    c, l, r = cond(n-1), dur(0), dur(0); return f"({c[0]} ? duration({l[0]}) : duration({r[0]}))", f"(({c[1]}) ? ({l[1]}) : ({r[1]}))"

A = "three_valued_type a,three_valued_type b,three_valued_type c,three_valued_type d,four_valued_type f,duration p,duration q,timeabs x,timeabs y,bool u,bool w"
rows = []
with open(out, "w") as o:
    o.write('#include "conn.h"\n')
    for i in range(count):
        n = R.randint(1, 5)
        kind = R.choice(["b3"] * 5 + ["b4", "out_p", "out_fv", "dur", "cond"])
        if kind == "b3": l, r = b3(n); lib, orc = f"(int)({l})", f"(int)({r})"
        elif kind == "b4": l, r = b4(n); lib, orc = f"(int)({l})", f"(int)({r})"
        elif kind == "out_p": l, r = b3(n); lib, orc = f"name(out_p({l}))", f"name(k_name3({r}))"; l = f"out_p({l})"
        elif kind == "out_fv": l, r = b4(n); lib, orc = f"name(out_fv({l}))", f"name(k_name4({r}))"; l = f"out_fv({l})"
        elif kind == "dur": l, r = dur(n); lib, orc = f"enc({l})", f"enc({r})"
        else: l, r = cond(n); lib, orc = f"(int)({l})", f"(int)({r})"
        if len(l) > 700: l, lib, orc = "b3_not(a)", "(int)(b3_not(a))", "(int)k_not(a)"
        o.write(f"static long long L{i}({A}){{return {lib};}}\nstatic long long K{i}({A}){{return {orc};}}\n")
        rows.append(f'{{L{i},K{i},"{l}"}}')
    o.write("const Row ROWS[]={\n" + ",\n".join(rows) + "};\nconst int NROWS=%d;\n" % len(rows))
    o.write('#include "conn_main.h"\n')
