#!/usr/bin/env python3
"""formulas.py SEED COUNT PROFILE OUT: random formulas as rmtld3synth writes them (operand classes + operator templates),
every subformula as a node of its own, plus a table of nodes for the oracle."""
import sys, random
seed, count, profile, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
small = profile.endswith("-small")      # bounds that fit in every build
profile = profile.replace("-small", "")
rnd = random.Random(f"{seed}-{profile}-{out.split('/')[-1]}")
LEN = 12      # cost estimate: events per window
FUT = ["U", "A", "E=", "A=", "Eu"]
PAST = ["S", "H", "P=", "H="]
nodes = []    # dict(op, b, p, l, r, cost, ib) ; ib: contains an in-between until
code = []

def bound():
    if small: return rnd.choice([0, 1, 2, 3, 5, 7, 10, 13, 18, 25, 40, rnd.randint(0, 60), rnd.randint(0, 20), rnd.choice([1000, 10**6, 10**9])])
    return rnd.choice([0, 1, 2, 3, 5, 7, 10, 13, 18, 25, 40, rnd.randint(0, 60), rnd.randint(0, 60), rnd.randint(0, 20), rnd.choice([1000, 10**9, 2**31, 3 * 2**30, 2**32 + 5]), rnd.choice([2**32 + 5, 2**33 + 7, 2**34, 10**12])])

def add(op, b=0, p=0, l=-1, r=-1):
    i = len(nodes)
    c = [nodes[x]["cost"] for x in (l, r) if x >= 0]
    ib = op == "UB" or any(nodes[x]["ib"] for x in (l, r) if x >= 0)
    win = op in FUT + PAST + ["UB", "D"]
    dep = 1 + max([nodes[x]["dep"] for x in (l, r) if x >= 0], default=0)
    nodes.append(dict(op=op, b=b, p=p, l=l, r=r, ib=ib, dep=dep, cost=(LEN * (sum(c) + 1) if win else sum(c) + 1) * (LEN // 2 if op == "UB" else 1)))
    L, R = (f"F{l}<T>::e(tr, t)" if l >= 0 else ""), (f"F{r}<T>::e(tr, t)" if r >= 0 else "")
    # an operand may leave the cursor anywhere: the operators restore it
    mv = [rnd.choice(["tr.increment_cursor();", "tr.decrement_cursor();tr.decrement_cursor();", "tr.reset();", "{typename T::buffer_t::event_t e;tr.pull(e);tr.pull(e);}", "{timespan z=t+3;tr.set(z);}"]) if rnd.random() < 0.3 else "" for _ in (1, 2)]
    arg = lambda x, m: f"three_valued_type r={x};{m}return r;"
    ops = f"struct O{{static three_valued_type eval_phi1(T&tr,timespan&t){{{arg(L or 'T_TRUE', mv[0])}}}static three_valued_type eval_phi2(T&tr,timespan&t){{{arg(R or L or 'T_TRUE', mv[1])}}}}};"
    W = lambda body, extra="": code.append(f"template<typename T>struct F{i}{{{extra}static three_valued_type e(T&tr,timespan&t){{{body}}}}};")
    if op == "p": W(f"proposition p={p};return prop<T>(tr,p,t);")
    elif op == "T": W("return T_TRUE;")
    elif op == "F": W("return T_FALSE;")
    elif op == "!": W(f"auto a={L};return b3_not(a);")
    elif op == "&": W(f"auto a={L};auto b={R};return b3_and(a,b);")
    elif op == "|": W(f"auto a={L};auto b={R};return b3_or(a,b);")
    elif op == "U": W(f"return until_less<T,O,{b}>(tr,t);", ops)
    elif op == "UB": W(f"return until_less<T,O,{b},with_in_between>(tr,t);", ops)
    elif op == "A": W(f"return always_less<T,O,{b}>(tr,t);", ops)
    elif op == "E=": W(f"return eventually_equal<T,O,{b}>(tr,t);", ops)
    elif op == "A=": W(f"return always_equal<T,O,{b}>(tr,t);", ops)
    elif op == "Eu": W("return eventually_less_unbounded<T,O>(tr,t);", ops)
    elif op == "S": W(f"return since_less<T,O,{b}>(tr,t);", ops)
    elif op == "H": W(f"return historically_less<T,O,{b}>(tr,t);", ops)
    elif op == "P=": W(f"return pasteventually_equal<T,O,{b}>(tr,t);", ops)
    elif op == "H=": W(f"return historically_equal<T,O,{b}>(tr,t);", ops)
    elif op == "<": W(f"duration a=F{l}<T>::d(tr,t);duration b=F{r}<T>::d(tr,t);return b3_lessthan(a,b);")
    else:
        dbody = {"D": f"return duration_term<T,O,{b}>(tr,t);", "k": f"return make_duration({b},false);",
                 "+": f"return sum_dur(F{l}<T>::d(tr,t),F{r}<T>::d(tr,t));", "*": f"return mult_dur(F{l}<T>::d(tr,t),F{r}<T>::d(tr,t));"}[op]
        code.append(f"template<typename T>struct F{i}{{{ops if op=='D' else ''}static duration d(T&tr,timespan&t){{{dbody}}}}};")
    return i

DURS = ["D", "k", "+", "*"]
third = 3 if small else rnd.choice([3, 3, 3, 3, 257, 65537, 2**31 + 3, 2**32 - 1])     # propositions are 32-bit numbers
props = [add("p", p=k) for k in (1, 2, third)]
add("T"); add("F")
for a in props[:2]: add("!", l=a)
weights = {"future": {"U": 5, "UB": 2, "A": 3, "E=": 3, "A=": 2, "Eu": 3, "!": 1, "&": 1, "|": 1, "S": 1, "<": 1, "D": 1},
           "past": {"S": 5, "H": 4, "P=": 4, "H=": 3, "!": 1, "&": 1, "|": 1, "U": 1, "E=": 1, "D": 1, "<": 1},
           "dur": {"D": 8, "k": 2, "+": 3, "*": 2, "<": 5, "U": 3, "S": 2, "E=": 1, "H": 1, "!": 1, "&": 1, "|": 1},
           "mixed": {"U": 3, "A": 2, "E=": 2, "A=": 1, "Eu": 2, "S": 3, "H": 2, "P=": 2, "H=": 1, "D": 3, "k": 1, "+": 1, "*": 1, "<": 3, "!": 1, "&": 1, "|": 1, "UB": 1}}[profile]
keys, ws = list(weights), list(weights.values())
# one plain instance of each operator of the profile first
plan = [k for k in keys] + [rnd.choices(keys, ws)[0] for _ in range(count)]
def pick(dur=False, limit=6000):
    c = [i for i, n in enumerate(nodes) if (n["op"] in DURS) == dur and n["cost"] <= limit and not n["ib"]]
    if limit < 1000 and rnd.random() < 0.7: c = [i for i in c if nodes[i]["dep"] > 1] or c
    if rnd.random() < 0.5: c = [i for i in c if nodes[i]["dep"] <= 2] or c
    return rnd.choice(c)
for op in plan:
    if len(nodes) >= count + 7: break
    if op == "k": add("k", b=rnd.choice([0, 1, 2, 5, 10, rnd.randint(0, 40)]))
    elif op in ("+", "*", "<"):
        if not any(n["op"] == "D" for n in nodes): add("D", b=bound(), l=pick())
        if not any(n["op"] == "k" for n in nodes): add("k", b=rnd.randint(0, 20))
        add(op, l=pick(True), r=pick(True))
    elif op == "UB":
        # operands whose value depends on the very time: all others have no value of their own between events
        def timely(): return add(rnd.choice(["E=", "E=", "A=", "P="]), b=rnd.choice([1, 2, 3, 5, 7, 10, 13, rnd.randint(1, 30)]), l=rnd.choice(props + [n for n in range(len(nodes)) if nodes[n]["op"] == "!"]))
        add("UB", b=rnd.choice([bound(), 40, 10**9]), l=rnd.choice([3, 3, pick(limit=160), timely()]), r=rnd.choice([4, timely(), timely(), pick(limit=160)]))
    elif op in ("U", "S"): add(op, b=bound(), l=pick(), r=pick())
    elif op in ("&", "|"): add(op, l=pick(), r=pick())
    elif op == "!": add(op, l=pick())
    else: add(op, b=bound(), l=pick())

with open(out, "w") as f:
    f.write('#include "frm.h"\n')
    f.write("\n".join(code) + "\n")
    f.write(f"const int NNODES = {len(nodes)};\nconst NodeInfo NODES[] = {{\n")
    for i, n in enumerate(nodes):
        f.write(f'{{"{n["op"]}",{n["b"]}L,{n["p"] - 2**32 if n["p"] >= 2**31 else n["p"]},{n["l"]},{n["r"]},{int(n["op"] in DURS)},{int(n["ib"])}}},\n')
    f.write("};\n")
    f.write("template<typename T>struct Table{static three_valued_type e(int i,T&tr,timespan&t){switch(i){\n")
    for i, n in enumerate(nodes):
        if n["op"] not in DURS: f.write(f"case {i}: return F{i}<T>::e(tr,t);\n")
    f.write("}abort();}\nstatic duration d(int i,T&tr,timespan&t){switch(i){\n")
    for i, n in enumerate(nodes):
        if n["op"] in DURS: f.write(f"case {i}: return F{i}<T>::d(tr,t);\n")
    f.write('}abort();}};\n#if defined(FRM_MONITOR)\n#include "c_monitor.h"\n#elif defined(FRM_CONFIG)\n#include "config_main.h"\n#elif defined(FRM_APART)\n#include "c_apart.h"\n#else\n#include "formulas_main.h"\n#endif\n')
