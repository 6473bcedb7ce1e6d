"""Seeded scripts per property.  scripts(prop, n, seed) yields n scripts; the specification judges the traces."""
import copy, json, re
from proj import *

KINDS = ["project","file","library","resource","view","logic"]
def fs(paths): return [{"op":"fs.touch","p":p} for p in paths]

# ---------------------------------------------------------------- block code
BAD_WORDS = ["%x","%m","%S","%%","%é","%1","%m.","%."]
def break_flat(g, rows):
    """one departure from a well formed list (the specification decides what it means)"""
    rows = copy.deepcopy(rows)
    if not rows: return rows
    r = g.one(rows)
    ids = [int(x["id"]) for x in rows if re.fullmatch(r"\d+", x["id"], re.A)] or [7]
    free = max(i for i in ids if i < 2**31 - 1) + 1 if any(i < 2**31 - 1 for i in ids) else 5
    args = [(x, i) for x in rows for i in range(len(x["params"]))]
    c = g.r.randrange(14)
    if c == 0: r["next"] = g.one([free, 0, 2**31 - 2])
    elif c == 1: r[g.one(["ss1","ss2"])] = free
    elif c == 2: r["next"] = g.one(ids)
    elif c == 3: r[g.one(["ss1","ss2"])] = g.one(ids)
    elif c == 4: r["id"] = g.one(["x","","-1","1.5"," 3","99999999999999999999"])
    elif c == 5: r["type"], r["tn"] = g.one([("z",""),("",""),("l",""),("l","List"),("ll","List String"),("B",""),("cc","")])
    elif c == 6 and args: x, i = g.one(args); x["params"].pop(i)
    elif c == 7 and args: x, i = g.one(args); x["params"][i] = {"s":g.one(["", "abc", "1.2.3", "true", "TRUE", "0x10", " 1", "1 ", "yes", "１"])}
    elif c == 8 and args: x, i = g.one(args); x["params"][i] = {"s":g.one(["@x","@","@-1","@1.5","@ 1","@@1","@" + str(free),"@99999999999999999999"])}
    elif c == 9 and args: x, i = g.one(args); x["params"][i] = {"s":"@" + str(g.one(ids))}
    elif c == 10: r["spec"] = (r["spec"] + " " if r["spec"] else "") + g.one(BAD_WORDS)
    elif c == 11 and len(rows) > 1: rows.pop(g.r.randrange(1, len(rows)))
    elif c == 12: r["spec"] = (r["spec"] + " " if r["spec"] else "") + g.one(["%s","%d","%b","%m.x"])
    elif c == 13: r["spec"] = g.one(["  ", "a  b", " a", "a ", "%", "% s", "a%s", "100%"])
    return rows
def deep(g, n):
    """a program nested n levels deep"""
    f = [g.block(0)]
    for _ in range(n):
        b = g.block(0)
        c = g.r.randrange(3)
        if c == 0: b["kind"], b["ss1"] = "OneNest", f
        elif c == 1: b["kind"], b["ss1"], b["ss2"] = "TwoNest", [g.block(0)], f
        else:
            b["items"] = [{"k":"s","nm":"","vk":"blk","v":"","w":[],"b":[f[0]]}]
        f = [b] + ([g.block(0)] if g.p(.3) else [])
    return f
def s_c04(g, i):
    ops = []
    for _ in range(6): ops.append({"op":"blocks.enc","forest":g.forest(g.one([0,1,2,2,3]), g.one([1,2,3,5]))})
    if i % 25 == 0: ops.append({"op":"blocks.enc","forest":deep(g, 12)})
    if i % 25 == 1: ops.append({"op":"blocks.enc","forest":[g.block(0) for _ in range(120)]})
    return ops
def s_c05(g, i):
    ops = []
    for _ in range(3): ops.append({"op":"blocks.dec","flat":Enc(g).list(g.forest(g.one([1,2,2,3]), g.one([1,2,3,4])))})
    for _ in range(5):
        fl = Enc(g).list(g.forest(g.one([1,2,2]), g.one([1,2,3])))
        ops.append({"op":"blocks.dec","flat":break_flat(g, fl)})
    ops.append({"op":"blocks.enc","forest":g.forest(2, 3)})
    if i % 25 == 0: ops.append({"op":"blocks.dec","flat":Enc(g).list(deep(g, 12))})
    if i % 25 == 1: ops.append({"op":"blocks.dec","flat":Enc(g).list([g.block(0) for _ in range(120)])})
    return ops

# ---------------------------------------------------------------- contents
SPEC_WORDS = WORDS + ["%s","%d","%b","%s.name","%d.n","%b.flag","%m.view","%m.list","%s.é"]
def args_for(g, words, good=True):
    out = []
    for w in words:
        if len(w) > 1 and w[0] == "%":
            k = w[1]
            if not good and g.p(.3): out.append(g.one(["", "abc", "@x", "@", "1", "true", "@5"]))
            elif g.p(.15): out.append("@" + str(g.one([0, 5, 11, 2147483647, 4294967295])))
            elif k in "sm": out.append(g.arg_s())
            elif k == "d": out.append(g.one(["", g.number()]))
            else: out.append(g.one(["true","false",""]))
    return out
def s_c06(g, i):
    ops = []
    for _ in range(3):
        words = [g.one(SPEC_WORDS) for _ in range(g.one([9, 11, 12, 15]) if g.p(.05) else g.r.randint(0, 6))]
        if g.p(.2): words.insert(g.r.randint(0, len(words)), g.one(BAD_WORDS))
        if g.p(.1): words.insert(g.r.randint(0, len(words)), "")
        spec = " ".join(words)
        start = g.r.randrange(3)
        if start == 0:
            a = args_for(g, words, g.p(.7))
            if a and g.p(.2): a.pop()
            ops.append({"op":"content.parse","spec":spec,"args":a})
        elif start == 1: ops.append({"op":"content.parse_wo","spec":spec})
        else: ops.append({"op":"content.build","items":g.items(1)})
        built = start == 2
        # the rest only makes sense once a content is there
        if not built and len(ops) == 1 and start != 2:
            ops.insert(0, {"op":"content.build","items":g.items(1)})
        pars = [w for w in words if len(w) > 1 and w[0] == "%"]
        if not built and len(pars) > 1 and all(w[1] in "sdb" or w[1] == "m" and len(w) > 3 for w in pars) and g.p(.35):
            # some parameters filled by hand, the rest by a list of arguments
            mine = [n for n in range(len(pars)) if g.p(.4)]
            ops.append({"op":"content.parse_wo","spec":spec})
            for n in mine: ops.append({"op":"content.set","i":str(n),"item":{**g.arg_item(1, pars[n][1]),"nm":pars[n][3:]}})
            a = args_for(g, [w for n, w in enumerate(pars) if n not in mine], g.p(.9))
            if a and g.p(.2): a.pop()
            if g.p(.1): a.append(g.arg_s())
            ops += [{"op":"content.apply","args":a},{"op":"content.args"}]
        for _ in range(g.r.randint(2, 5)):
            c = g.r.randrange(6)
            if c == 0: ops.append({"op":"content.string"})
            elif c == 1: ops.append({"op":"content.args"})
            elif c == 2: ops.append({"op":"content.take"})
            elif c == 3: ops.append({"op":"content.set","i":str(g.r.randint(0, 4)),"item":g.arg_item(1)})
            elif c == 4:
                a = args_for(g, words, g.p(.7))
                if a and g.p(.2): a.pop()
                ops.append({"op":"content.apply","args":a})
            else: ops.append({"op":"content.blocks","have":[{"id":str(n),"b":literal(g) if g.p(.4) else g.block(1)} for n in (0, 5, 11, 2147483647, 4294967295) if g.p(.85)]})
        ops.append({"op":"content.string"})
    return ops

def literal(g):
    """a block that stands for a truth value"""
    w = g.one(["true", "false"])
    return {"op":w,"color":"-10701022","kind":"Boolean","tn":"","items":[{"k":"text","nm":"","vk":"text","v":w,"w":[w],"b":[]}],"ss1":[],"ss2":[]}

# ---------------------------------------------------------------- views
def topo(g, tree):
    """rows of a layout in any order that puts parents first"""
    rows, todo = [], [(v, "root", "0") for v in tree]
    while todo:
        # keep siblings in order: only the first waiting child of each parent may go
        seen, cand = set(), []
        for n, (v, p, pt) in enumerate(todo):
            if p not in seen: seen.add(p); cand.append(n)
        v, p, pt = todo.pop(g.one(cand))
        r = dict(v["raw"]); r["parent"] = "=" + p; r["parentType"] = pt
        rows.append(r)
        todo += [(c, v["id"], v["raw"]["type"]) for c in v["kids"]]
    return rows
def tree_ops(g, P, tree, n):
    ops = []
    t = copy.deepcopy(tree)
    for _ in range(n):
        op, f = P.view_edit(t)
        ops.append({"op":"tree." + op, **f})
    ids = P.ids(t)
    ops += [{"op":"tree.find","id":x} for x in ([g.one(ids)] if ids else []) + ["nothing"]]
    ops.append({"op":"tree.flatten"})
    return ops
def s_views(g, i, values):
    P = Proj(g)
    ops = []
    c = i % 5
    big = i % 40 == 7
    if c in (0, 1):
        tree = g.tree(4 if not big else 6, 3, agree=True)
        if c == 0: rows = topo(g, tree)
        else: rows = g.flat_of(tree)
        ops.append({"op":"tree.load","flat":rows})
        ops += tree_ops(g, P, tree, g.r.randint(0, 4))
    elif c == 2:
        tree = g.tree(3, 3, agree=False)
        ops.append({"op":"tree.build","tree":tree})
        ops += tree_ops(g, P, tree, g.r.randint(0, 4))
    elif c == 3 and not values:
        rows = topo(g, g.tree(3, 3))
        if rows:
            k = g.r.randrange(5)
            r = g.one(rows)
            if k == 0: r["parent"] = g.one(["=nobody","="])
            elif k == 1: r["parent"] = "-"
            elif k == 2 and len(rows) > 1: a, b = g.r.sample(range(len(rows)), 2); rows[a], rows[b] = rows[b], rows[a]
            elif k == 3: rows.pop(g.r.randrange(len(rows)))
            elif k == 4: r["parent"] = "=" + g.one(rows)["id"]
        ops += [{"op":"tree.build","tree":[]},{"op":"tree.load","flat":rows},{"op":"tree.flatten"}]
    elif values:
        for _ in range(4):
            ops.append({"op":"view.from","raw":g.raw(kind=g.one([None,None,1,19,36,127]))})
            ops.append({"op":"kind.of","raw":g.raw(kind=g.one([None,None,None,1,19,36,200,255]))})
            k = g.kind()
            ops.append({"op":"kind.apply","kind":k,"raw":g.raw()})
            ops.append({"op":"kind.id","kind":k})
    else:
        tree = g.tree(2, 4, agree=False)
        ops.append({"op":"tree.build","tree":tree})
        ops += tree_ops(g, P, tree, 6)
    return ops
def s_c07(g, i): return s_views(g, i, False)
def s_c08(g, i):
    if i % 4 == 3:
        P = Proj(g, 2, 2)
        a = P.project(screens=1, res=0)
        a["icon"] = []
        for s in a["screens"]: s.update(events=[], mbs=[], comps=[], vars=[], lists=[])
        return session(g, P, a, [], "views")
    return s_views(g, i, True)

# ---------------------------------------------------------------- data files
def s_c02(g, i):
    return [{"op":"doc.write","kind":k,"model":g.model(k)} for k in KINDS]
def s_c03(g, i):
    return [{"op":"doc.parse","kind":k,"text":Text(g).doc(k, g.model(k))} for k in KINDS]
JUNK = [None, True, False, "x", "", 1, 0, -1, 2, 3, 1.5, 1.0, 127, 128, -128, -129, 255, 256, 65535, 65536, 32768, 4294967295, 4294967296, 2147483647, 2147483648, -2147483648, -2147483649, 10**30, [], {}, ["a"], "true", "FIT_XY", "65535", "65536", "01", "+1", "1e3", "-1", "20200230000000", "2020022900000", "20200229000000", "20201301000000", "20200101240000", "0000", "２０２００１０１００００００"]
BLANK_LIKE = [" ", "  ", "\t", "\u3000", "\u00a0", " \t "]
LONG = ["é" * 90, "日" * 77, "x" + "é" * 150, "xy" + "日" * 100, "@" + "é" * 100, "9:" + "名" * 60, ":" + "é" * 300, "🙂" * 64, "{\"é\":" + "é" * 80]
def mutate_json(g, line):
    d = json.loads(line)
    def pick(o):
        ks = list(o)
        if not ks: return
        k = g.one(ks)
        v = o[k]
        if isinstance(v, dict) and g.p(.8): return pick(v)
        if g.p(.35): del o[k]; return
        j = g.one(JUNK)
        # f32 fields keep small numbers only: the format says nothing about rounding
        while k in ("alpha","scaleX","scaleY","translationX","translationY") and isinstance(j, (int, float)) and not isinstance(j, bool) and abs(j) > 1000: j = g.one(JUNK)
        if isinstance(v, list) and v and g.p(.3): v[g.r.randrange(len(v))] = g.one([1, None, {}, True])
        else: o[k] = j
    if g.p(.1): d["extraKey"] = g.one(JUNK)
    else: pick(d)
    return json.dumps(d)
def mutate(g, text, times=1):
    lines = text.split("\n")
    for _ in range(times):
        if not lines: lines = [""]
        n = g.r.randrange(len(lines))
        js = [k for k, l in enumerate(lines) if l.startswith("{")]
        hd = [k for k, l in enumerate(lines) if l.startswith("@")]
        tx = [k for k, l in enumerate(lines) if l and l[0] not in "{@"]
        c = g.r.random()
        if js and c < .5: k = g.one(js); lines[k] = mutate_json(g, lines[k]) if lines[k].endswith("}") and ok_json(lines[k]) else lines[k]
        elif js and c < .58: k = g.one(js); lines[k] = lines[k][:g.r.randint(1, len(lines[k]))]
        elif hd and c < .68:
            k = g.one(hd)
            lines[k] = g.one([lines[k][1:], lines[k] + g.one(["x","_",".","é"]), "@", lines[k][:-1], "@" + lines[k], lines[k].replace(".", ""), lines[k].split(".")[0], lines[k].replace("java_", "java"), lines[k].replace(".xml", ".XML"),
                              lines[k] + " ", lines[k] + "\t", " " + lines[k], "@ " + lines[k][1:], lines[k].upper(), lines[k] + lines[k]])
        elif tx and c < .78: k = g.one(tx); lines[k] = g.one([lines[k].replace(":", ""), "9" + lines[k], ":" + lines[k], "x:" + lines[k], lines[k].split(":")[0], " " + lines[k], "4:x", "256:x", "-1:x", "02:x"])
        elif c < .8: lines.insert(g.r.randint(0, len(lines)), g.one(BLANK_LIKE))
        elif c < .85: lines.insert(n, g.one(LONG) if g.p(.2) else g.one(["garbage","{}","{","2:x","x:y","null","\"s\"","12"," ","\t","@nothing","é"]))
        elif c < .92: lines.pop(n)
        elif c < .97: lines.insert(n, "")
        else: lines.insert(n, lines[g.r.randrange(len(lines))])
    # a line that is a JSON array is read as a record by position; the format does not have such lines
    return "\n".join(l for l in lines if not l.startswith("["))
def ok_json(l):
    try: return isinstance(json.loads(l), dict)
    except Exception: return False
def s_c13(g, i):
    if i % 6 == 5:
        P = Proj(g, 1, 2)
        touch = []
        a = P.project(touch=touch, res=1)
        d = P.docs(P.lower(a))
        k = g.one(KINDS)
        d[k] = mutate(g, d[k], g.one([1, 1, 2]))
        return fs(touch) + [{"op":"sess.setraw","docs":d,"files":P.files(a)},{"op":"sess.load","res":g.one(["keep","none"])}]
    if i % 6 == 4:
        return [{"op":"blocks.dec","flat":break_flat(g, Enc(g).list(g.forest(2, 3)))} for _ in range(4)] + \
               [{"op":"tree.load","flat":x} for x in broken_layouts(g, 3)]
    ops = []
    for k in KINDS:
        t = Text(g).doc(k, g.model(k))
        while k != "project" and len(t) < 30: t = Text(g).doc(k, g.model(k))
        ops.append({"op":"doc.parse","kind":k,"text":mutate(g, t, g.one([1, 1, 1, 2]))})
    return ops
SECTIONS = ("var","list","components","events","func")
def broken_layouts(g, n):
    out = []
    for _ in range(n):
        rows = topo(g, g.tree(2, 2))
        if rows: g.one(rows)["parent"] = g.one(["-","=nobody","=" + g.one(rows)["id"]])
        out.append(rows)
    return out

# ---------------------------------------------------------------- resources
def s_c10(g, i):
    P = Proj(g)
    ops = [{"op":"res.new"}]
    fns = [P.fname(g.one(["png","mp3","ttf"])) for _ in range(3)]
    if g.p(.3): fns.append(g.near(fns[0]))
    ids = [g.one(["a","b","c","é","","x y"]) + s for s in ("", "1", "2")] + fns[:2]
    paths = []
    if g.p(.4): ids = [ids[0]] + [g.near(ids[0]) for _ in range(3)] + ids[3:6]
    if i % 40 == 7: ids += [str(n) for n in range(12)]
    if i % 4 == 3:
        # the store of a project as it was loaded
        touch = []
        a = P.project(screens=0, touch=touch, res=g.one([2, 3]))
        a["icon"], a["cviews"] = [], []
        P.shared(a["res"])
        ops = fs(touch) + [{"op":"sess.setraw","docs":P.docs(P.lower(a)),"files":P.files(a)},{"op":"sess.load","res":"keep"},{"op":"res.load"}]
        ids = [e["id"] for l, _ in TYPES for e in a["res"][l]] * 3 + ids[:4]
        paths += touch
    for _ in range(g.r.randint(3, 12) if i % 40 != 7 else 60):
        c = g.r.random()
        x = g.one(ids)
        if c < .5:
            l, t = g.one(TYPES)
            # the type asked for need not be the one the file says
            f, p = P.file(g.one(["Image","Sound","Font","CustomIcon"]) if g.p(.3) else t, g.one(fns) if g.p(.7) else None)
            if p:
                paths.append(p)
                if g.p(.75): ops.append({"op":"fs.touch","p":p})
            ops.append({"op":"res.put","id":x,"file":f,"t":t})
        elif c < .7: ops.append({"op":"res.get","id":x})
        elif c < .9: ops.append({"op":"res.remove","id":x})
        elif paths: ops.append({"op":"fs.rm","p":g.one(paths)})
    return ops
def file_list(g, P, a):
    """the files of a project as a user may hand them over: shuffled, with extras, some missing or of another type"""
    l = copy.deepcopy(P.files(a)["l"])
    ops = []
    g.r.shuffle(l)
    c = g.one([0, 1, 2, 3, 3, 3, 4, 5, 6])
    if c == 0 and l: l.pop()
    elif c == 1:
        f, p = P.file(g.one(list(FILES)))
        if p: ops.append({"op":"fs.touch","p":p})
        l.append(f)
    elif c == 2 and l:
        f = g.one(l)
        if f["k"] != "path": f["t"] = g.one([t for t in FILES if t != f["t"]])
        else:
            l.remove(f); d = g.one([x for x, _ in FILES.values() if not f["id"].startswith(x)]); q = d + "/" + f["id"].split("/", 1)[1]
            ops.append({"op":"fs.touch","p":q}); l.append({**f,"id":q})
    elif c == 3 and l:
        f = g.one(l)
        if f["k"] != "path": f["fn"] = g.one([f["fn"] + "x", g.near(f["fn"]), f["fn"].swapcase()])
        elif g.p(.5):
            # the file goes by a name close to its own
            d, b = f["id"].rsplit("/", 1)
            q = d + "/" + g.near(b)
            if q.endswith(("/", "/.", "/..")): q += "x"
            ops += [{"op":"fs.rm","p":f["id"]},{"op":"fs.touch","p":q}]
            l[l.index(f)] = {**f,"id":q}
        else: ops.append({"op":"fs.rm","p":f["id"]})
    elif c == 4:
        q = g.one(["images/a.png","other/601/a.png","a.png","imagesx/601/a.png","images/601/sub/a.png"])
        ops.append({"op":"fs.touch","p":q}); l.append({"k":"path","id":q,"fn":"","t":"-"})
    return ops, l
def s_c11(g, i):
    P = Proj(g, 1, 1)
    touch = []
    a = P.project(screens=1, touch=touch, res=3)
    ops = fs(touch)
    c = i % 4
    if c == 0:
        for _ in range(3):
            pre, l = file_list(g, P, a)
            ops += pre + [{"op":"rfiles.from","files":l}]
            if not pre and all(f["k"] != "path" or f["id"] in touch for f in l): ops.append({"op":"rfiles.into"})
            ops += [{"op":"rfiles.name","file":f} for f in l[:3]]
        return ops
    if c == 1:
        pre, l = file_list(g, P, a)
        return ops + pre + [{"op":"sess.setraw","docs":P.docs(P.lower(a)),"files":P.files(a)},{"op":"sess.load","res":"list","files":l},{"op":"sess.setraw","docs":P.docs(P.lower(a)),"files":P.files(a)},{"op":"sess.load","res":"none"},{"op":"sess.save"},{"op":"sess.load","res":"none"}]
    if c == 2:
        return ops + [{"op":"sess.setraw","docs":P.docs(P.lower(a)),"files":P.files(a)},{"op":"sess.load","res":"keep"},{"op":"sess.save"},{"op":"sess.load","res":"keep"}]
    return session(g, P, a, touch, "res")

# ---------------------------------------------------------------- encryption
def s_c12(g, i):
    by = lambda n: [g.r.randrange(256) for _ in range(n)]
    ops = []
    if i % 50 == 7: ops.append({"op":"crypt.enc","data":by(g.one([255, 256, 257, 512, 1000]))})
    for _ in range(3):
        n = g.one([0, 1, 15, 16, 17, 31, 32, 33, g.r.randint(0, 80)])
        ops.append({"op":"crypt.enc","data":by(n)})
        ops.append({"op":"crypt.dec","data":by(g.one([0, 16, 32, 15, 17, 1, 48]))})
    d = by(g.r.randint(0, 50))
    name = g.one(["a","project","a b","é.txt"])
    ops += [{"op":"fs.write","p":name,"data":d},{"op":"crypt.encfile","p":name},{"op":"fs.read","p":name}]
    if g.p(.5): ops += [{"op":"crypt.encto","p":name,"q":""},{"op":"fs.read","p":name},{"op":"crypt.decfile","p":name},{"op":"crypt.encto","p":name,"q":g.one(["", name])},{"op":"crypt.decfile","p":name}]
    else:
        if g.p(.5): ops.append({"op":"fs.write","p":"out","data":by(100)})
        ops += [{"op":"crypt.encto","p":name,"q":"out"},{"op":"fs.read","p":name},{"op":"fs.read","p":"out"},{"op":"crypt.decfile","p":"out"}]
    ops += [{"op":"crypt.decfile","p":"missing"},{"op":"crypt.encfile","p":"missing"},{"op":"crypt.encto","p":"missing","q":g.one(["","o2"])},{"op":"fs.list"}]
    return ops

# ---------------------------------------------------------------- tables and scalars
def all_codes():
    """every code of every table, in both directions"""
    g = G(99)
    ops = []
    for n in range(256):
        for p1 in ("", "p", "é:"):
            ops.append({"op":"codes.comp","c":{"id":"c","p1":p1,"p2":"","p3":"","type":str(n)}})
        ops.append({"op":"codes.vt","n":str(n)})
        ops.append({"op":"codes.opts","n":str(n)})
        for nm, tg in (("onClick","button1"),("onCreate","x"),("onBackPressed","onBackPressed")):
            e = {"name":nm,"etype":str(n),"target":tg,"ttype":str((n * 7) % 256)}
            ops += [{"op":"codes.event","e":e},{"op":"codes.etype","e":e}]
        for res in ("-","=img"):
            r = G(n).raw(kind=n)
            r["image.resName"] = res
            ops += [{"op":"kind.of","raw":r},{"op":"view.from","raw":r}]
    for k in COMPONENTS:
        for p in ("", "x"):
            if p and k not in WITH_PARAM: continue
            ops.append({"op":"codes.compinto","id":"i d","kind":k,"p":p})
    for et in ("view","component","activity"):
        for nm in ("onClick","onCreate","initializeLogic"):
            for ct in ("0","1","27","255"):
                ops.append({"op":"codes.eventinto","event":{"name":nm,"et":et,"target":"" if et == "activity" else "t_1","ctype":ct if et == "component" else "0","code":[g.block(1)]}})
    for ty in [" ","b","s","d","v","p","c","e","f","l","a","","  ","B","ss","m","h","é"] + [chr(c) for c in range(33, 127)]:
        for tn in ("","List String","List Number","List","list string","View","日本"):
            if ty == "a" or (ty == "l" and tn == "List Map"): continue
            ops.append({"op":"codes.btype","type":ty,"tn":tn})
    for k in BLOCK_LETTER:
        for tn in ("","View","日本"):
            ops.append({"op":"codes.btypeinto","kind":k,"tn":tn if k in ("View","Component") else ""})
    for k in CATS: ops.append({"op":"codes.catinto","cat":k})
    cols = [(238,125,22),(204,91,34),(225,169,42),(92,183,34),(35,185,169),(161,136,127),(74,108,212),(252,165,226),(138,85,215)]
    for c in cols:
        for dr, dg, db in ((0,0,0),(1,0,0),(0,1,0),(0,0,1),(-1,0,0),(0,-1,0),(0,0,-1)):
            for al in (255, 0, 128):
                u = al << 24 | (c[0] + dr) << 16 | (c[1] + dg) << 8 | (c[2] + db)
                ops.append({"op":"codes.cat","color":str(u - 2**32 if u >= 2**31 else u)})
    for k in KIND_FIELDS:
        for s in range(3):
            kk = G(s).kind(k)
            ops.append({"op":"kind.id","kind":kk})
    for o in ("Horizontal","Vertical"): ops.append({"op":"kind.id","kind":{"k":"ScrollView","f":{"gravity":"0","orientation":o}}})
    return [{"id":f"codes{i}","ops":ops[i:i + 40]} for i in range(0, len(ops), 40)]
def s_c14(g, i):
    ops = []
    for _ in range(4):
        ops.append({"op":"codes.cat","color":g.color()})
        ops.append({"op":"codes.comp","c":g.p_comp()})
        ops.append({"op":"codes.event","e":g.p_event()})
        ops.append({"op":"codes.btype","type":g.one([" ","b","s","d","v","p","c","e","f","l","x",g.s()[:2]]),"tn":g.one(["","List String","List Number",g.s()])})
        ops.append({"op":"kind.of","raw":g.raw(kind=g.r.randrange(256))})
        ops.append({"op":"codes.eventinto","event":Proj(g, 1, 2).event()})
    return [o for o in ops if not (o["op"] == "codes.btype" and (o["type"] == "a" or o["tn"] == "List Map"))]
def s_c15(g, i):
    ops = []
    byt = lambda: str(g.one([0, 1, 127, 128, 255, 16, 15, g.r.randrange(256)]))
    for via in ("argb","rgb","u32","hex8","hex6","HEX8","json","jsonf"): ops.append({"op":"color.make","a":byt(),"r":byt(),"g":byt(),"b":byt(),"via":via})
    for _ in range(3): ops.append({"op":"color.hex","txt":g.one(["", "f", "ff", "fff", "ffffff", "FFFFFFFF", "gggggg", "12345", "1234567", "123456789", "#ffffff", " fffff", "é0000", "日本", "0x1234", "-12345", "+12345", "ffffff ", "00000000", "".join(g.one("0123456789abcdefABCDEFgz") for _ in range(g.one([6, 8])))])})
    for _ in range(3): ops.append({"op":"doc.write","kind":"project","model":g.m_project()})
    for _ in range(2):
        t = Text(g)
        d = json.loads(t.project(g.m_project()))
        d["my_sc_reg_dt"] = "".join(g.one("0123456789") for _ in range(14)) if g.p(.3) else date(g.r.randint(*g.one([(0, 2932896), (0, 2932896), (-719162, -1), (-60, -1)])), g.one([0, 1, 86399, g.r.randint(0, 86399)])) if g.p(.6) else g.one(["00000229000000","00000101000000","00001231235959","19691231235959","19691231000000","20200230000000","20210229000000","20200229235959","19000229000000","20000229000000","99991231235959","19700101000000","20201301000000","20200001000000","20200100000000","20200101240000","20200101006000","20200101000060","","x","2020","202001010000001","2020010100000x"," 0200101000000"])
        if g.p(.25):
            # one of its digits is none
            x = d["my_sc_reg_dt"]; n = g.r.randrange(max(1, len(x))); d["my_sc_reg_dt"] = x[:n] + g.one([" ", " ", "x", ".", "_", "T", ":", "\u0663"]) + x[n + 1:]
        ops.append({"op":"doc.parse","kind":"project","text":json.dumps(d)})
    m = {"activities":[g.file_item() for _ in range(2)],"customViews":[g.file_item()]}
    ops.append({"op":"doc.write","kind":"file","model":m})
    lines = Text(g).file(m).split("\n")
    js = [k for k, l in enumerate(lines) if l.startswith("{")]
    if js:
        k = g.one(js)
        d = json.loads(lines[k]); f = g.one(["fileType","keyboardSetting","options","orientation","theme"]); d[f] = g.r.randint(-3, 17) if f != "options" else g.r.randrange(256)
        lines[k] = json.dumps(d)
    ops.append({"op":"doc.parse","kind":"file","text":"\n".join(lines)})
    r = g.raw()
    ops.append({"op":"doc.write","kind":"view","model":{"layouts":[{"name":"main","views":[r]}],"fabs":[]}})
    d = json.loads(Text(g).view(g.raw()))
    SC = [("choiceMode",-1,4),("spinnerMode",-1,3),("checked",0,1),("clickable",0,1),("enabled",0,1),("firstDayOfWeek",-1,256),("preIndex",-2**31,2**31-1),("parentType",-129,128)]
    for _ in range(3):
        c = g.r.randrange(4)
        if c == 0: k, lo, hi = g.one(SC); d[k] = g.one([lo, hi, g.r.randint(lo, hi)])
        elif c == 1: k = g.one(["height","width"]); d["layout"][k] = g.one([-2, -1, 0, 1, -3, 2**31 - 1, -2**31, 2**31, g.r.randint(0, 500)])
        elif c == 2: d["layout"]["orientation"] = g.one([-1, 0, 1, 2, -2])
        else: k, v = g.one([("imeOption", g.r.randint(-1, 7)), ("inputType", g.one([1, 3, 129, 8194, 4098, 12290, 2, 0])), ("textType", g.r.randint(-1, 4)), ("singleLine", g.one([0, 1]))]); d["text"][k] = v
    ops.append({"op":"doc.parse","kind":"view","text":"@main.xml\n" + json.dumps(d) + "\n"})
    return ops

# ---------------------------------------------------------------- sessions
def session(g, P, a, touch, area, rounds=None, hop=True):
    a = copy.deepcopy(a)
    ops = fs(touch)
    if g.p(.6): ops.append({"op":"sess.new","project":copy.deepcopy(a)})
    else:
        if g.p(.15): P.shared(a["res"])
        ops += [{"op":"sess.setraw","docs":P.docs(P.lower(a)),"files":P.files(a)},{"op":"sess.load","res":"keep"}]
        P.reloaded(a)
        # the typed side of a view follows its raw one after a load
    auto = False
    for r in range(rounds or g.r.randint(1, 3)):
        for _ in range(g.r.randint(0, 4)): ops += P.edit(a, area, auto)
        ops.append({"op":"sess.save"})
        if hop and g.p(.2): ops.append({"op":"sess.crypt","bad":""})
        res = "keep"
        if not auto and g.p(.1): res, auto = "none", True; a["icon"] = []
        ops.append({"op":"sess.load","res":res,"via":g.one(["from","from","parts"])})
        P.reloaded(a)
    return ops
def s_c01(g, i):
    P = Proj(g, g.one([1, 2, 2, 3]), g.one([2, 2, 3]))
    touch = []
    a = P.project(touch=touch)
    return session(g, P, a, touch, "all")
def s_c09(g, i):
    P = Proj(g, 2, 2)
    a = P.project(screens=g.r.randint(1, 2), res=0)
    a["icon"], a["cviews"] = [], []
    for s in a["screens"]: s["layout"], s["fab"] = [], []
    if i % 3 == 0:
        m = P.lower(a)
        # declared onCreate, stray containers, code before its declaration
        for s in m["logic"]["screens"]:
            if g.p(.3): s["conts"].append({"id":g.one(["nobody_onClick","stray_moreBlock","zz"]),"flat":Enc(g).list(g.forest(1, 2))})
            if g.p(.3) and s["events"]["some"] == "1" and s["events"]["l"]: s["events"]["l"].pop(g.r.randrange(len(s["events"]["l"])))
            if g.p(.3) and s["conts"]: s["conts"].pop(g.r.randrange(len(s["conts"])))
            if g.p(.3) and s["conts"]:
                # code under a name close to the one it belongs to, or as well under such a name
                k = g.one(s["conts"])
                n = g.near(k["id"])
                if n and n not in {x["id"] for x in s["conts"]} | set(SECTIONS) and "\n" not in n:
                    if g.p(.5): k["id"] = n
                    else: s["conts"].insert(g.r.randint(0, len(s["conts"])), {"id":n,"flat":Enc(g).list(g.forest(1, 2))})
            if g.p(.2): s["events"]["some"] = "1"; s["events"]["l"].insert(g.r.randint(0, len(s["events"]["l"])), {"name":"onCreate","etype":"3","target":"onCreate","ttype":"0"})
        return [{"op":"sess.setraw","docs":P.docs(m),"files":{"some":"1","l":[]}},{"op":"sess.load","res":"keep"},{"op":"sess.save"},{"op":"sess.load","res":"keep"}]
    return session(g, P, a, [], "code")
def s_c16(g, i):
    P = Proj(g, 1, 1)
    a = P.project(screens=0, res=0)
    a["icon"], a["cviews"] = [], []
    if i % 3 == 0:
        m = P.lower(a)
        for k, l in m["library"].items():
            if g.p(.5): l.update(useYn=g.one(["Y","N","Y","N","","y","Yes","1"]), data=g.one(["", g.s()]), reserved1=g.one(["", g.s()]), reserved2=g.one(["", g.s()]), reserved3=g.one(["", g.s()]), testDevices=g.many(g.s, 2), adUnits=g.many(lambda: {"id":g.s(),"name":g.s()}, 2))
        return [{"op":"sess.setraw","docs":P.docs(m),"files":{"some":"1","l":[]}},{"op":"sess.load","res":"keep"}]
    return session(g, P, a, [], "libs")
def s_c17(g, i):
    P = Proj(g, 1, 1)
    touch = []
    a = P.project(touch=touch, res=1)
    d = P.docs(P.lower(a))
    f = P.files(a)
    if i % 3 == 1: f = {"some":"0","l":[]}
    ops = fs(touch)
    c = i % 4
    if c in (1, 2):
        for k in g.r.sample(KINDS, g.one([1, 1, 2])): d[k] = mutate(g, d[k]) if g.p(.5) else g.one(["garbage","@","{}","@activity\nx","@main.xml\nx\n","@A.java_var\nx\n"])
        # a text with something before or after it
        if g.p(.4): k = g.one(KINDS); e = g.one(["\ufeff", "\u0000", " ", "\n", "\t", "\u200b", "\u2028", "#", ";", "\ufffe"]); d[k] = e + d[k] if g.p(.6) else d[k] + e
    if c == 3:
        x, y = g.r.sample(KINDS, 2)
        d[x], d[y] = d[y], d[x]
    ops += [{"op":"sess.newraw","docs":d,"files":f},{"op":"sess.parsed"},{"op":"sess.load","res":"keep","via":"from"},{"op":"sess.load","res":"keep","via":"parts"},{"op":"sess.crypt","bad":""}]
    ops += [{"op":"sess.parsed"},{"op":"sess.crypt","bad":str(g.r.randrange(6)),"how":g.one(CIPHER_BAD)}]
    return ops
CIPHER_BAD = ["cut", "none", "bytes", "tail"]
def s_c18(g, i):
    P = Proj(g, 2, 2)
    a = P.project(screens=g.r.randint(1, 3), res=0)
    a["icon"] = []
    if i % 2 == 0:
        m = P.lower(a)
        v, l = m["view"], m["logic"]
        act = {s["layoutName"] for s in a["screens"]}
        for _ in range(g.r.randint(1, 3)):
            c = g.r.randrange(8)
            if c == 0 and v["layouts"]: v["layouts"].pop(g.r.randrange(len(v["layouts"])))
            elif c == 1 and l["screens"]: l["screens"].pop(g.r.randrange(len(l["screens"])))
            elif c == 2 and v["fabs"]: v["fabs"].pop(g.r.randrange(len(v["fabs"])))
            elif c == 3:
                n = g.one([x for x in ["orphan","zz","mainx","Main"] if x not in {y["name"] for y in v["layouts"]}] or ["q"])
                v["layouts"].insert(0, {"name":n,"views":topo(g, g.tree(2, 2))})
            elif c == 4 and "Stray" not in {x["name"] for x in l["screens"]}:
                l["screens"].insert(0, {"name":"Stray","own":"Stray","conts":[],"vars":{"some":"1","l":[g.var()]},"lists":{"some":"0","l":[]},"comps":{"some":"0","l":[]},"events":{"some":"0","l":[]},"mbs":{"some":"0","l":[]}})
            elif c == 5 and "strayfab" not in {x["name"] for x in v["fabs"]}:
                r = g.raw(); r["parent"] = "-"; v["fabs"].insert(0, {"name":"strayfab","view":r})
            elif c == 7 and (v["layouts"] or v["fabs"] or l["screens"]):
                # a part goes by a name close to its own
                part = g.one([x for x in (v["layouts"], v["fabs"], l["screens"]) if x])
                x = g.one(part)
                n = g.near(x["name"])
                if part is not l["screens"]: n = n.strip()
                if n and n not in {y["name"] for y in part} and n[0] != " ":
                    x["name"] = n
                    if "own" in x: x["own"] = n
            elif c == 6: g.r.shuffle(v["layouts"]); g.r.shuffle(l["screens"]); g.r.shuffle(v["fabs"]); g.r.shuffle(m["file"]["activities"])
        return [{"op":"sess.setraw","docs":P.docs(m),"files":{"some":"1","l":[]}},{"op":"sess.load","res":"keep"},{"op":"sess.save"},{"op":"sess.load","res":"keep"}]
    return session(g, P, a, [], "screens")
def s_c19(g, i):
    P = Proj(g, 2, 3)
    touch = []
    a = P.project(touch=touch)
    res = g.one(["keep","keep","none"])
    if res == "none": a["icon"] = []
    return fs(touch) + [{"op":"sess.setraw","docs":P.docs(P.lower(a)),"files":P.files(a)},{"op":"sess.load","res":res},{"op":"sess.save"},{"op":"sess.load","res":"keep"},{"op":"sess.save"}]

def s_c20(g, i):
    """saving again and again, with edits of one part at a time and loading in between"""
    if i % 2:
        # every sort of edit alone between two saves
        P = Proj(g, 1, 2)
        touch = []
        a = P.project(screens=g.one([1, 2]), touch=touch)
        ops = fs(touch) + [{"op":"sess.new","project":copy.deepcopy(a)},{"op":"sess.save"}]
        for e in g.r.sample(P.SORTS, 7):
            if g.p(.25): ops += [{"op":"sess.load","res":"keep","via":"from"}]; P.reloaded(a)
            ops += P.edit(a, e) + [{"op":"sess.save"}]
        return ops
    P = Proj(g, g.one([1, 2, 2]), g.one([2, 3]))
    touch = []
    a = P.project(touch=touch)
    ops = fs(touch) + [{"op":"sess.new","project":copy.deepcopy(a)},{"op":"sess.save"}]
    auto = False
    for _ in range(g.r.randint(3, 6)):
        for _ in range(g.one([0, 1, 1, 2])): ops += P.edit(a, g.one(["views","code","libs","res","screens","all"]), auto)
        ops.append({"op":"sess.save"})
        if g.p(.5):
            res = "keep"
            if not auto and g.p(.1): res, auto = "none", True; a["icon"] = []
            ops.append({"op":"sess.load","res":res,"via":"from"}); P.reloaded(a)
            ops.append({"op":"sess.save"})
    return ops

# ---------------------------------------------------------------- pieces of data files
PIECES = {"fileItem":"file_item","resItem":"res_item","viewItem":"raw","varItem":"var","listItem":"var","compItem":"p_comp","mbItem":"p_mb","eventItem":"p_event","blockItem":"p_block"}
RUNS = {"layout":"viewItem","varPool":"varItem","listPool":"listItem","compPool":"compItem","mbPool":"mbItem","eventPool":"eventItem","blocks":"blockItem"}
def piece(g, k):
    if k == "header": return {"screen":g.one(["MainActivity","A","x.y","","é","java_","a b","@x"]),"cont":g.one(["onCreate_initializeLogic","button1_onClick","foo_moreBlock","x","","a.b","var","名前"])}
    if k == "libItem": return g.lib_item(g.one("0123"))
    if k not in RUNS: return getattr(g, PIECES[k])()
    l = g.many(lambda: piece(g, RUNS[k]), g.one([0, 1, 3, 5]))
    key = {"varPool":"name","listPool":"name","mbPool":"id"}.get(k)
    return [x for i, x in enumerate(l) if not key or all(x[key] != y[key] for y in l[:i])]
def piece_text(g, k, m):
    t = Text(g)
    one = {"fileItem":t.file_line,"resItem":t.res_line,"libItem":t.lib_line,"viewItem":t.view,"compItem":t.comp_line,"eventItem":t.event_line,"blockItem":t.block_line,
           "varItem":lambda v: f"{VARTYPES.index(v['type'])}:{v['name']}","mbItem":lambda b: f"{b['id']}:{b['spec']}","header":lambda h: f"@{h['screen']}.java_{h['cont']}"}
    one["listItem"] = one["varItem"]
    if k in RUNS: return "\n".join(one[RUNS[k]](x) for x in m)
    return one[k](m)
def s_c21(g, i):
    ops = []
    for k in list(PIECES) + ["libItem", "header"] + list(RUNS):
        ops.append({"op":"doc.write","kind":k,"model":piece(g, k)})
        t = piece_text(g, k, piece(g, k))
        if k in RUNS:
            t += "\n" * g.one([0, 0, 1, 2])
            if g.p(.3): t += g.one(["\n\n", "\n\n", "\n" + g.one(BLANK_LIKE) + "\n"]) + piece_text(g, k, piece(g, k)) + g.one(["", "\n", "\n@x.java_y"])
        if g.p(.35): t = mutate(g, t)
        ops.append({"op":g.one(["doc.parse", "doc.iter"]) if k in RUNS and k != "blocks" else "doc.parse","kind":k,"text":t})
    return ops

# ---------------------------------------------------------------- refusals
def damage(g, P, m):
    """one thing in the parsed project that does not fit the rest"""
    lo, vi, fi = m["logic"]["screens"], m["view"]["layouts"], m["file"]
    c = g.r.randrange(11)
    if c == 0 and vi:
        l = g.one(vi)["views"]
        if l: g.one(l)["parent"] = g.one(["-","=nobody","=" + g.one(l)["id"]])
    elif c == 1 and fi["customViews"]: g.one(fi["customViews"])["name"] = "no_such"
    elif c == 2:
        for k, l in m["library"].items():
            if g.p(.4): l["useYn"] = g.one(["","y","Yes","1","n"])
    elif c in (3, 4, 5, 6) and lo:
        x = g.one(lo)
        cs = [k for k in x["conts"] if k["flat"]]
        if cs: k = g.one(cs); k["flat"] = break_flat(g, k["flat"])
    elif c == 7 and lo:
        e = g.one(lo)["events"]
        if e["l"]: g.one(e["l"])["etype"] = g.one(["0","2","6","99","255"])
    elif c == 8 and lo:
        e = g.one(lo)["comps"]
        if e["l"]: g.one(e["l"])["type"] = g.one(["0","99","255","23"])
    elif c == 9 and lo:
        e = g.one(lo)["mbs"]
        if e["l"]: b = g.one(e["l"]); b["spec"] = b["spec"] + " " + g.one(BAD_WORDS)
    elif c == 10:
        r = m["resource"][g.one(["images","sounds","fonts"])]
        r.append({"fullName":g.one(["gone.png","é.mp3","x"]),"name":g.one(["gone","n m"]),"type":"1"})
def plug_ops(g):
    """references of which some have nothing to be replaced with"""
    n = g.r.randint(1, 4)
    ids = g.r.sample([0, 5, 11, 12, 99, 2147483647, 2147483648, 4294967295], n)
    have = [{"id":str(x),"b":g.block(1)} for x in ids if g.p(.6)]
    return [{"op":"content.parse","spec":" ".join(["w"] + ["%s"] * n),"args":["@" + str(x) for x in ids]},{"op":"content.blocks","have":have},{"op":"content.string"}]
def s_c22(g, i):
    c = i % 6
    if c in (0, 1):
        ops = []
        for k in KINDS[1:] + list(RUNS) + (list(PIECES) + ["libItem", "header"] if c else []):
            t = Text(g).doc(k, g.model(k)) if k in KINDS else piece_text(g, k, piece(g, k))
            t = mutate(g, t, g.one([1, 1, 2]))
            if k in ("library", "view", "logic") and g.p(.15):
                # a text that breaks off after one of its headers
                h = [n for n, l in enumerate(t.split("\n")) if l.startswith("@")]
                if h: t = "\n".join(t.split("\n")[:g.one(h) + 1]) + g.one(["", "\n"])
            ops.append({"op":"doc.iter" if k in RUNS and k != "blocks" and g.p(.5) else "doc.parse","kind":k,"text":t})
        return ops
    if c == 2:
        ops = []
        for _ in range(8): ops.append({"op":"blocks.dec","flat":break_flat(g, Enc(g).list(g.forest(g.one([1, 2, 2, 3]), g.one([1, 2, 3]))))})
        ops += [{"op":"tree.load","flat":x} for x in broken_layouts(g, 4)]
        for _ in range(4):
            r = g.raw(kind=g.one([None, 6, 16, 7, 200, 255]))
            if g.p(.5): r["image.resName"] = "-"
            ops.append({"op":"kind.of","raw":r})
        return ops
    if c == 3: return s_c06(g, i) + s_c14(g, i) + plug_ops(g)
    if c == 4 and g.p(.2): return [{"op":"sess.newraw","docs":{k: g.s() for k in KINDS},"files":{"some":g.one(["0","1"]),"l":[]}},{"op":"sess.crypt","bad":str(g.r.randrange(6)),"how":g.one(CIPHER_BAD)}]
    if c == 4: return g.one([s_c10, s_c12, lambda g, i: s_c11(g, g.one([0, 1]))])(g, i)
    P = Proj(g, g.one([1, 2]), 2)
    touch = []
    a = P.project(touch=touch, res=2)
    m = P.lower(a)
    for _ in range(g.one([1, 1, 2])): damage(g, P, m)
    return fs(touch) + [{"op":"sess.setraw","docs":P.docs(m),"files":P.files(a)},{"op":"sess.load","res":g.one(["keep","keep","none"])}]

# ---------------------------------------------------------------- made from nothing
def no_ph(items): return [x for x in items if x["vk"] != "ph"]
def code_ops(g, steps):
    """a program put together with the constructors"""
    ops = [{"op":"make.start"}]
    for n in range(steps):
        for it in g.items(2):
            if it["k"] == "text": ops.append({"op":"make.text","text":it["v"]})
            else: ops.append({"op":"make.arg","item":it})
        if g.p(.95): ops.append({"op":"make.content"})
        kind = g.one(list(BLOCK_LETTER))
        ops.append({"op":"make.block","ctor":g.one(["new","new","new","one","two"]),"cat":g.one(CATS),"opc":g.s(),"kind":kind,"tn":g.one(["TextView","","Intent"]) if kind in ("View","Component") else ""})
        if g.p(.3): ops.append({"op":"make.hold"})
        if g.p(.2): ops.append({"op":"make.code"})
    return ops + [{"op":"make.code"}]
CAT_RGB = [(238,125,22),(204,91,34),(225,169,42),(92,183,34),(35,185,169),(161,136,127),(74,108,212),(252,165,226),(138,85,215)]
def made_all():
    """every gravity, every number of parameters, every kind of view"""
    g = G("made")
    ops = [{"op":"make.gravity","n":str(n)} for n in range(256)]
    for n in range(256):
        ops.append({"op":"make.view","id":g.s(),"type":str(n if n < 128 else n),"parent":g.one(["root",g.s()]),"ptype":str(n - 128)})
        ops.append({"op":"make.comp","id":g.s(),"p":[f"p{j}" for j in range(n % 4)],"type":str(n)})
        ops.append({"op":"make.color","a":str(n),"r":str((n * 7) % 256),"g":str((255 - n)),"b":str((n * 31) % 256)})
    for t in ("List String","List Number","List Map","List","","list string","String","Number","List  String"):
        if t != "List Map": ops.append({"op":"make.list","text":t})
    for t in ("Image","Sound","Font","CustomIcon"):
        for n in ("a.png","a.mp3","f.ttf","a.ogg","f.otf","x","",".ttf","a.9.png","icon.png","A.JPG","sounds/a.png"): ops.append({"op":"make.rid","name":n,"t":t})
    # every number of parameters with any of them empty, or equal
    for n in range(4):
        for m in range(3 ** n): ops.append({"op":"make.comp","id":f"c{m}","p":[["", f"p{j}", "same"][m // 3 ** j % 3] for j in range(n)],"type":g.rng(0, 255)})
    ops.append({"op":"make.defaults","name":"MainActivity"})
    return [{"id":f"made{i}","ops":ops[i:i + 40]} for i in range(0, len(ops), 40)]
def s_c23(g, i):
    ops = code_ops(g, g.r.randint(1, 6))
    for _ in range(3):
        ops.append({"op":"make.comp","id":g.s(),"p":[g.one(["", g.s(), g.s()]) for _ in range(g.r.randint(0, 3))],"type":g.rng(0, 255)})
        ops.append({"op":"make.view","id":g.s(),"type":str(g.one(list(VIEW_CODES.values()) + [2, 12])),"parent":g.s(),"ptype":g.rng(-128, 127)})
        b = g.block(1)
        if g.p(.7):
            c = g.one(CAT_RGB)
            u = g.one([255, 255, 0, 128]) << 24 | c[0] << 16 | c[1] << 8 | c[2]
            b["color"] = str(u - 2**32 if u >= 2**31 else u)
        ops.append({"op":"make.cat","block":b})
        e = Proj(g, 1, 2).event()
        ops.append({"op":"make.etype","e":g.p_event(),"event":{**e,"code":[]}})
        mb = Proj(g, 1, 2).mb()
        ops.append({"op":"make.mb","mb":mb})
        ops.append({"op":"make.rid","name":g.one([g.s(), Proj(g).fname(g.one(["png","mp3","ttf"]))]),"t":g.one(["Image","Sound","Font","CustomIcon"])})
        ops.append({"op":"make.color",**{k: g.rng(0, 255) for k in "argb"}})
        ops.append({"op":"make.list","text":g.one(["List String","List Number",g.s()])})
    ops.append({"op":"make.defaults","name":g.s()})
    if g.p(.3):
        P = Proj(g, g.r.randint(0, 2), 2)
        touch = []
        a = P.project(touch=touch)
        ops += fs(touch) + [{"op":"sess.new","project":a},{"op":"sess.obs"}]
    return [o for o in ops if not (o["op"] == "make.list" and o["text"] == "List Map")]

# ---------------------------------------------------------------- large inputs
def plain_block(g, n):
    b = g.block(0)
    if n % 3: b["items"] = b["items"][:1]
    return b
def huge_forest(g, n):
    """n blocks: mostly in one row, some nested at both ends and in the middle"""
    f = [plain_block(g, k) for k in range(n - 40)]
    for at in (0, len(f) // 2, len(f)): f.insert(at, deep(g, 6)[0])
    k = len(f) // 3
    big = g.block(0); big["kind"] = "TwoNest"; big["ss1"] = f[k:k + n // 3]; big["ss2"] = [g.block(1) for _ in range(5)]
    return f[:k] + [big] + f[k + n // 3:]
def lengthen(g, m):
    """one of the model's free texts gets longer than two bytes can count"""
    T = {"appName","wsName","pkgName","verName","data","reserved1","reserved2","reserved3","text.text","text.hint","spec","fullName","op","p1","customView"}
    at = []
    def walk(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in T and isinstance(v, str) and not ("words" in o or "w" in o): at.append((o, k))
                walk(v)
        if isinstance(o, list):
            for v in o: walk(v)
    walk(m)
    if at:
        o, k = g.one(at)
        o[k] = g.one(["x", "é", "ab ", "日", "\\"]) * g.one([33000, 65537, 70000])
    return m
def lots(g, f, n, key=None):
    l = [f() for _ in range(n)]
    if key:
        for k, x in enumerate(l):
            x[key] = f"{x[key]}{k}"
            if "own" in x: x["own"] = x[key]
    return l
def huge_model(g, k, n):
    m = g.model(k)
    if k == "file": m["activities"] = lots(g, g.file_item, n); m["customViews"] = lots(g, g.file_item, 40)
    if k == "resource":
        for x in m: m[x] = lots(g, g.res_item, n if x == "images" else 40)
    if k == "library": m["admob"]["adUnits"] = lots(g, lambda: {"id":g.s(),"name":g.s()}, n); m["firebaseDB"]["testDevices"] = lots(g, g.s, n)
    if k == "view":
        m["layouts"] = [{"name":f"l{i}","views":[g.raw(g.uid())] if i % 8 == 0 else []} for i in range(70)]; m["fabs"] = [{"name":f"l{i}","view":g.raw(g.uid())} for i in range(20)]
        lengthen(g, m)
        m["layouts"].append({"name":"many","views":[g.raw(g.uid()) for _ in range(n)]})
    if k == "logic":
        one = lambda i: {"name":f"S{i}","own":f"S{i}","conts":[{"id":f"b{i}_onClick","flat":[]}],"vars":{"some":"1","l":[]},"lists":{"some":"0","l":[]},"comps":{"some":"0","l":[]},"events":{"some":"0","l":[]},"mbs":{"some":"0","l":[]}}
        m["screens"] = [one(i) for i in range(40)]
        x = m["screens"][g.one([0, 20, 39])]
        most = g.one(["vars", "lists", "comps", "events", "mbs", "big"])
        for q, f, key in (("vars", g.var, "name"), ("lists", g.var, "name"), ("comps", g.p_comp, None), ("events", g.p_event, None), ("mbs", g.p_mb, "id")): x[q] = {"some":"1","l":lots(g, f, n if q == most else 30, key)}
        x["conts"] = [{"id":f"b{i}_onClick","flat":[]} for i in range(60)] + [{"id":"big","flat":[g.p_block() for _ in range(n if most == "big" else 30)]}]
    return m if k == "view" else lengthen(g, m)
def huge_tree(g, n):
    """n views: one long row, and rows within rows"""
    t = [g.view(0, 0) for _ in range(n // 2)]
    for k in range(n // 2):
        v = g.view(0, 0)
        w = g.one(t[:6])
        while w["kids"] and g.p(.5): w = g.one(w["kids"])
        w["kids"].append(v)
    return t
def spoil(g, text, frac=1):
    """something odd near the end"""
    l = text.split("\n")
    while l and not l[-1]: l.pop()
    l.insert(len(l) - 1 if g.p(.5) else len(l), g.one(["garbage", "{}", "x:y", "9:z"]))
    return "\n".join(l)
def huge(prop, seed):
    g = G(f"{seed}/huge/{prop}")
    N = g.one([260, 270, 300])
    # nested far deeper than counts of a few bits, and texts longer than two bytes can count
    if prop == "C04": deepest = [[{"op":"blocks.enc","forest":deep(g, 27)}]]
    if prop == "C05": deepest = [[{"op":"blocks.dec","flat":Enc(g).list(deep(g, 70))}]]
    if prop == "C02": return [[{"op":"doc.write","kind":k,"model":huge_model(g, k, N)}] for k in KINDS]
    if prop == "C03": return [[{"op":"doc.parse","kind":k,"text":Text(g).doc(k, huge_model(g, k, N))}] for k in KINDS]
    if prop in ("C13", "C22"): return [[{"op":"doc.parse","kind":k,"text":spoil(g, Text(g).doc(k, huge_model(g, k, N)))}] for k in KINDS[1:]] + \
        ([[{"op":"doc.parse","kind":k,"text":spoil(g, piece_text(g, k, huge_run(g, k, N)))}] for k in RUNS] if prop == "C22" else [])
    if prop == "C21": return [[{"op":"doc.write","kind":k,"model":huge_run(g, k, N)},{"op":"doc.parse","kind":k,"text":piece_text(g, k, huge_run(g, k, N))}] for k in RUNS]
    if prop == "C04": return [[{"op":"blocks.enc","forest":huge_forest(g, N)}]] + deepest
    if prop == "C05": return [[{"op":"blocks.dec","flat":Enc(g).list(huge_forest(g, N))}],[{"op":"blocks.dec","flat":Enc(g).list(huge_forest(g, 150))}]] + deepest
    if prop == "C06":
        w = [g.one(SPEC_WORDS) for _ in range(150)]
        n = len([x for x in w if len(x) > 1 and x[0] == "%"])
        return [[{"op":"content.parse","spec":" ".join(w),"args":args_for(g, w)},{"op":"content.args"},{"op":"content.set","i":str(n - 2),"item":g.arg_item(0)},{"op":"content.string"},{"op":"content.take"},{"op":"content.apply","args":args_for(g, w)},{"op":"content.args"}]]
    if prop in ("C07", "C08"):
        P = Proj(g)
        t = huge_tree(g, N)
        # all of them below one
        wide = [g.view(0, 0), {**g.view(0, 0), "kids": [g.view(0, 0) for _ in range(N)]}, g.view(0, 0)]
        wide[1]["kids"][g.one([0, 130, N - 1])]["kids"] = [g.view(0, 0), g.view(0, 0)]
        far = [g.view(0, 0)]
        for _ in range(50): far = [{**g.view(0, 0), "kids": far + ([g.view(0, 0)] if g.p(.2) else [])}]
        more = [[{"op":"tree.build","tree":wide}] + tree_ops(g, P, wide, 2), [{"op":"tree.build","tree":far}] + tree_ops(g, P, far, 3), [{"op":"tree.load","flat":topo(g, far)},{"op":"tree.flatten"}]]
        return [[{"op":"tree.load","flat":topo(g, t)}] + tree_ops(g, P, t, 2), [{"op":"tree.build","tree":t}] + tree_ops(g, P, t, 2)] + more
    if prop == "C10":
        P = Proj(g)
        ids = [f"r{k}" for k in range(280)]
        ops = [{"op":"res.new"}]
        for x in ids:
            l, t = g.one(TYPES)
            f, p = P.file(t)
            if p: ops.append({"op":"fs.touch","p":p})
            ops.append({"op":"res.put","id":x,"file":f,"t":t})
        for x in g.r.sample(ids, 30): ops += [{"op":"res.get","id":x},{"op":"res.remove","id":x},{"op":"res.get","id":x}]
        return [ops]
    if prop == "C12": return [[{"op":"crypt.enc","data":[g.r.randrange(256) for _ in range(1800)]}]]
    if prop == "C16":
        P = Proj(g, 1, 1)
        a = P.project(screens=0, res=0)
        a["icon"], a["cviews"] = [], []
        a["libs"]["admob"] = [{"adUnits":lots(g, lambda: {"id":g.s(),"name":g.s()}, N),"testDevices":lots(g, g.s, N)}]
        return [session(g, P, a, [], "libs")]
    if prop in ("C01", "C09", "C11", "C18", "C19", "C20", "C17"):
        P = Proj(g, 0, 1)
        touch = []
        a = P.project(screens=1, touch=touch)
        if prop == "C11":
            for l, t in TYPES:
                while len(a["res"][l]) < 90:
                    f, p = P.file(t)
                    if p: touch.append(p)
                    a["res"][l].append({"id":g.uid("res"),"file":f})
        elif prop in ("C18", "C17"):
            a["screens"] = []
            for k in range(34):
                s = P.screen(f"scr{k}")
                a["screens"].append(s)
            a["cviews"] = [{"name":f"cv{k}","layout":g.tree(1, 1)} for k in range(20)]
        else:
            s = a["screens"][0]
            n130 = 130 if prop == "C09" else 70
            for k in range(n130):
                s["events"].append({"name":"onClick","et":"view","target":f"bt{k}","ctype":"0","code":[plain_block(g, 1)]})
            s["vars"] = lots(g, g.var, 130, "name"); s["lists"] = lots(g, g.var, 130, "name"); s["comps"] = lots(g, P.comp, 130)
            s["mbs"] = lots(g, lambda: {"id":"mb","own":"mb","items":g.items(0, empty=True),"code":[plain_block(g, 1)]}, n130, "id")
            if prop != "C09": s["layout"] = huge_tree(g, 130)
        if prop in ("C19", "C17"):
            return [fs(touch) + [{"op":"sess.setraw","docs":P.docs(P.lower(a)),"files":P.files(a)},{"op":"sess.load","res":"keep"},{"op":"sess.save"}]]
        if prop == "C20": return [fs(touch) + [{"op":"sess.new","project":a},{"op":"sess.save"},{"op":"sess.load","res":"keep"},{"op":"sess.save"}]]
        return [fs(touch) + [{"op":"sess.new","project":a},{"op":"sess.save"},{"op":"sess.load","res":"keep","via":"from"}],
                fs(touch) + [{"op":"sess.setraw","docs":P.docs(P.lower(a)),"files":P.files(a)},{"op":"sess.load","res":"keep"}]]
    if prop == "C23":
        return [[o for o in code_ops(g, 150)]]
    return []
def huge_run(g, k, n):
    f = lambda: piece(g, RUNS[k])
    return lots(g, f, n, {"varPool":"name","listPool":"name","mbPool":"id"}.get(k))
def scripts(prop, n, seed):
    f = globals()["s_" + prop.lower()]
    out = [{"id":f"r{i}","ops":f(G(f"{seed}/{prop}/{i}"), i)} for i in range(n)]
    if prop in ("C14", "C22"): out = all_codes() + out
    if prop == "C23": out = made_all() + out
    out += [{"id":f"huge{i}","ops":o} for i, o in enumerate(huge(prop, seed))]
    return [s for s in out if s["ops"]]
