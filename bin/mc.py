"""Inputs for the specification's own exploration, and the scripts its dumps are turned into."""
import json, copy, re
from scripts import *

# ---------------------------------------------------------------- inputs
def base_raw(kind, id_="x"):
    r = {}
    for k, t in VIEW_TYPES.items():
        r[k] = {"str":"","ostr":"-","f32":"0","b01":"true","bstr":"false","color":"0","size":"wrap","scale":"Center"}.get(t) or (list(ENUMS[t])[0] if t in ENUMS else "0")
    r["id"], r["type"] = id_, str(kind)
    if kind in (6, 16): r["image.resName"] = "=img"
    return r
def templates():
    """1: a layout, 2: a text, 3: the kind a view is changed to"""
    a = view_of({**base_raw(0),"layout.paddingLeft":"8"})
    b = view_of({**base_raw(4),"text.text":"hi"})
    c = view_of({**base_raw(12),"layout.gravity":"17"})
    return [a, b, c]

def alphabet():
    """lines per data file: good ones, headers, blanks and bad ones"""
    t = Text(G(5))
    g = G(7)
    plain = lambda d: json.dumps(d)
    fl = {"name":"main","ftype":"Activity","kbd":"Hidden","toolbar":"true","fullscreen":"false","drawer":"true","fab":"false","orientation":"Both","theme":"None"}
    f1, f2 = t.file_line(fl), t.file_line({**fl,"name":"b"})
    r1, r2 = t.res_line({"fullName":"a.png","name":"a","type":"1"}), t.res_line({"fullName":"b.png","name":"b","type":"1"})
    lib = lambda y: t.lib_line({"adUnits":[],"data":"d","libType":"1","reserved1":"","reserved2":"","reserved3":"","testDevices":["x"],"useYn":y})
    v1, v2 = t.view({**base_raw(3, "v1"),"parent":"=root"}), t.view({**base_raw(4, "v2"),"parent":"=v1"})
    b1 = t.block_line({"color":"-1","id":"10","next":-1,"op":"o","params":[{"s":"x"}],"spec":"a %s","ss1":-1,"ss2":-1,"type":" ","tn":""})
    c1 = t.comp_line({"id":"c","p1":"","p2":"","p3":"","type":"1"})
    e1 = t.event_line({"name":"onClick","etype":"1","target":"b","ttype":"3"})
    return {
     "file":["@activity","@customview",f1,f2,"","junk","@other"],
     "resource":["@images","@sounds","@fonts",r1,r2,"","{}"],
     "library":["@firebaseDB","@compat","@admob","@googleMap",lib("Y"),lib("N"),"","x"],
     "view":["@main.xml","@b.xml","@main.xml_fab",v1,v2,"","junk","@main.xmlx"],
     "logic":["@M.java_var","@M.java_list","@M.java_x_onClick","@N.java_components","@M.java_events","@N.java_func","2:a","mb:do %s","","@bad",b1,c1,e1]}

def alphabet_pieces():
    """the same for the pieces of data files: an entry alone, or a run of them"""
    al = alphabet()
    f1, r1, l1 = al["file"][2], al["resource"][3], al["library"][4]
    v1, v2 = al["view"][3:5]
    v, mb, b1, c1, e1 = al["logic"][6], al["logic"][7], *al["logic"][-3:]
    bad = ["", "junk", "{}", "@M.java_x"]
    one = {"fileItem":[f1, r1],"resItem":[r1, f1],"libItem":[l1, r1],"viewItem":[v1, c1],"varItem":[v, "0:", "4:a", "a:2", mb],"listItem":[v, "3:x:y", "-1:a", "2"],"compItem":[c1, e1],"mbItem":[mb, "a:", ":b", "ab"],
           "eventItem":[e1, c1],"header":["@M.java_x_onClick", "@.java_", "@M.java", "M.java_x", "@M.java_a.java_b", "@java_x"],"blockItem":[b1, e1]}
    runs = {"layout":[v1, v2],"varPool":[v, "0:b", "9:c"],"listPool":[v, "1:c", ":d"],"compPool":[c1, c1.replace('"c"', '"d"')],"mbPool":[mb, "x:y %d", "nope"],"eventPool":[e1, e1.replace('"b"', '"c"')],"blocks":[b1, b1.replace('"10"', '"11"')]}
    return {k: l + [x for x in bad if x not in l] for k, l in {**one, **runs}.items()}

def edits():
    """the edits of the model project, in the shape they are recorded in"""
    g = G(3)
    txt = lambda w: {"k":"text","nm":"","vk":"text","v":w,"w":[w],"b":[]}
    blk = lambda op, kind="Regular", items=None, ss1=(), ss2=(): {"op":op,"color":"-1","kind":kind,"tn":"","items":items or [txt(op)],"ss1":list(ss1),"ss2":list(ss2)}
    lit = {"k":"b","nm":"","vk":"val","v":"true","w":[],"b":[]}
    code1 = [blk("a"), blk("if","TwoNest",[txt("if"),lit],[blk("x"),blk("y")],[blk("z")])]
    code2 = [blk("only")]
    ev = lambda name, et, target="", ct="0", code=(): {"name":name,"et":et,"target":target,"ctype":ct,"code":list(code)}
    scr = lambda n, **k: {"layoutName":n,"javaName":logic_name(n),"layout":[],"vars":[],"lists":[],"mbs":[],"comps":[],"events":[],"fab":[],"fullscreenOn":"false","toolbarOn":"true","drawerOn":"false","fabOn":"false","orientation":"Portrait","theme":"Default","kbd":"Unspecified", **k}
    vw = lambda i, k, **x: {**view_of(base_raw(k, i)), **x}
    mb = {"id":"foo","own":"foo","items":[txt("do"),{"k":"s","nm":"n","vk":"empty","v":"","w":[],"b":[]}],"code":code2}
    file = lambda k, i, fn, t: {"k":k,"id":i,"fn":fn,"t":t}
    E = [
     ("screens",{"edit":"screen.add","v":scr("main", layout=[vw("l1", 0, kids=[vw("b1", 3)])], events=[ev("onCreate","activity",code=code2)])}),
     ("screens",{"edit":"screen.add","v":scr("second_page", vars=[{"name":"v","own":"v","type":"Integer"}], fab=[vw("_fab", 16)])}),
     ("screens",{"edit":"screen.del","i":0}),
     ("screens",{"edit":"screen.flags","i":0,"v":{"fullscreenOn":"true","toolbarOn":"false","drawerOn":"true","fabOn":"true","orientation":"Landscape","theme":"None","kbd":"Hidden"}}),
     ("screens",{"edit":"var.add","i":0,"v":{"name":"v","own":"v","type":"HashMap"}}),
     ("screens",{"edit":"var.add","i":0,"v":{"name":"w","own":"w","type":"String"}}),
     ("screens",{"edit":"list.add","i":0,"v":{"name":"v","own":"v","type":"String"}}),
     ("screens",{"edit":"comp.add","i":0,"v":{"id":"c","kind":"FilePicker","p":"*/*"}}),
     ("screens",{"edit":"comp.add","i":0,"v":{"id":"c2","kind":"Timer","p":""}}),
     ("screens",{"edit":"fab","i":0,"v":[vw("_fab", 16)]}),
     ("screens",{"edit":"fab","i":0,"v":[]}),
     ("screens",{"edit":"cview.add","v":{"name":"item","layout":[vw("i1", 4)]}}),
     ("screens",{"edit":"cview.del","i":0}),
     ("code",{"edit":"ev.add","i":0,"pos":0,"v":ev("onClick","view","b1",code=code1)}),
     ("code",{"edit":"ev.add","i":0,"pos":0,"v":ev("onResponse","component","c","27",code2)}),
     ("code",{"edit":"ev.add","i":0,"pos":0,"v":ev("onBackPressed","activity",code=code1)}),
     ("code",{"edit":"ev.add","i":0,"pos":1,"v":ev("onCreate","activity",code=code1)}),
     ("code",{"edit":"ev.code","i":0,"j":0,"v":code1}),
     ("code",{"edit":"ev.code","i":0,"j":1,"v":[]}),
     ("code",{"edit":"ev.push","i":0,"j":0,"v":blk("last")}),
     ("code",{"edit":"ev.del","i":0,"j":0}),
     ("code",{"edit":"mb.add","i":0,"v":mb}),
     ("code",{"edit":"mb.code","i":0,"name":"foo","v":code1}),
     ("code",{"edit":"mb.del","i":0,"name":"foo"}),
     ("views",{"edit":"view.add","where":"screen","i":0,"parent":"","pos":0,"view":vw("n1", 12)}),
     ("views",{"edit":"view.add","where":"screen","i":0,"parent":"l1","pos":0,"view":vw("n2", 6)}),
     ("views",{"edit":"view.set","where":"screen","i":0,"id":"b1","set":{"kind":{"k":"EditText","f":{**{k: "0" for k in ("textSize","lines","textColor","hintColor")},"text":"t","textStyle":"Bold","singleLine":"true","textFont":"f","hint":"h","imeOption":"Go","inputType":"Phone"}},"w":"match","ml":"3"}}),
     ("views",{"edit":"view.move","where":"screen","i":0,"id":"b1","parent":"","pos":0}),
     ("views",{"edit":"view.del","where":"screen","i":0,"id":"l1"}),
     ("views",{"edit":"view.add","where":"cview","i":0,"parent":"","pos":1,"view":vw("i2", 2)}),
     ("libs",{"edit":"libs","v":{"compat":"true","firebase":[{"projectId":"p","appId":"a","apiKey":"k","bucket":"b"}],"admob":[{"adUnits":[{"id":"i","name":"n"}],"testDevices":["d"]}],"gmap":[{"apiKey":"m"}]}}),
     ("libs",{"edit":"libs","v":{"compat":"false","firebase":[],"admob":[{"adUnits":[],"testDevices":[]}],"gmap":[]}}),
     ("libs",{"edit":"libs","v":{"compat":"false","firebase":[{"projectId":"","appId":"","apiKey":"","bucket":""}],"admob":[],"gmap":[{"apiKey":""}]}}),
     ("res",{"edit":"res.put","id":"a","file":file("path","images/1/p.png","","-"),"t":"Image"}),
     ("res",{"edit":"res.put","id":"a","file":file("str","s","s.mp3","Sound"),"t":"Sound"}),
     ("res",{"edit":"res.put","id":"b","file":file("u32","7","p.png","Font"),"t":"Font"}),
     ("res",{"edit":"res.put","id":"c","file":file("path","images/1/gone.png","","-"),"t":"Image"}),
     ("res",{"edit":"res.del","id":"a"}),
     ("res",{"edit":"icon","v":[file("path","icons/1/i.png","","-")]}),
     ("res",{"edit":"icon","v":[]}),
     ("meta",{"edit":"meta","v":{"id":"601","appName":"App \"x\"","wsName":"w","pkgName":"p.q","days":"18321","secs":"32949","swVer":"150","verName":"1.0","verCode":"2"}}),
     ("meta",{"edit":"colors","v":{"cPrimary":"-16740915","cPrimaryDark":"-1","cAccent":"0","cNormal":"2147483647","cHighlight":"-2147483648"}})]
    return E
# the edits a property is about, and those needed to get there
AREAS = {"C01":{"screens","code","views","libs","res","meta"},"C09":{"code"},"C18":{"screens"},"C08":{"views"},"C16":{"libs","meta"},"C11":{"res","meta"},"C19":{"screens","code","views","libs","res"},"C20":{"screens","code","views","libs","res","meta"}}
GROUND = {"C09":[0, 1],"C18":[],"C08":[0, 11],"C16":[],"C11":[],"C01":[],"C19":[],"C20":[]}
def edits_for(prop):
    E = edits()
    pick = [i for i, (a, _) in enumerate(E) if a in AREAS[prop] or i in GROUND[prop]]
    return [{"op":"sess.edit","out":"ok",**E[i][1]} for i in pick]
def starts():
    """an empty project, and one with something of everything"""
    empty = {"meta":{"id":"1","appName":"a","wsName":"w","pkgName":"p","days":"0","secs":"0","swVer":"0","verName":"1","verCode":"1"},
            "colors":{k:"0" for k in ("cPrimary","cPrimaryDark","cAccent","cNormal","cHighlight")},"screens":[],"cviews":[],"libs":{"compat":"false","firebase":[],"admob":[],"gmap":[]},
            "res":{"images":[],"sounds":[],"fonts":[]},"icon":[]}
    E = edits()
    of = lambda name, k=0: copy.deepcopy([e["v"] for _, e in E if e["edit"] == name][k])
    full = copy.deepcopy(empty)
    s1, s2 = of("screen.add", 0), of("screen.add", 1)
    s1["events"] += [of("ev.add", 1), of("ev.add", 2)]
    s1["mbs"], s1["comps"] = [of("mb.add")], [of("comp.add")]
    s1["mbs"][0]["id"] = s1["mbs"][0]["own"] = "bar"
    s1["vars"], s1["lists"] = [of("var.add")], [of("list.add")]
    s1["layout"].append({**view_of(base_raw(12, "t1")), "kids": [view_of(base_raw(4, "t2"))]})
    full["screens"], full["cviews"] = [s1, s2], [of("cview.add")]
    full["libs"] = of("libs", 0)
    full["res"] = {"images":[{"id":"a","file":{"k":"path","id":"images/1/p.png","fn":"","t":"-"}}],"sounds":[],"fonts":[{"id":"f","file":{"k":"str","id":"x","fn":"x.ttf","t":"Font"}}]}
    full["icon"] = of("icon", 0)
    return [empty, full]
# ---------------------------------------------------------------- scripts
def group(ops, n, pre="m"): return [{"id":f"{pre}{i // n}","ops":ops[i:i + n]} for i in range(0, len(ops), n)]
def stringy(e):
    o = {k: v for k, v in e.items() if k != "out"}
    for k in ("i","j","pos"):
        if k in o: o[k] = str(o[k])
    return o
def from_views(dump, values):
    t = templates()
    out = []
    for n, h in enumerate(dump):
        ops = [{"op":"tree.build","tree":[]}]
        for e in h:
            if e["op"] == "add":
                v = copy.deepcopy(t[e["n"] - 1]); v["id"] = v["raw"]["id"] = e["id"]
                ops.append({"op":"tree.add","parent":e["parent"],"pos":str(e["pos"]),"view":v})
            elif e["op"] == "del": ops.append({"op":"tree.del","id":e["id"]})
            elif e["op"] == "move": ops.append({"op":"tree.move","id":e["id"],"parent":e["parent"],"pos":str(e["pos"])})
            else: ops.append({"op":"tree.set","id":e["id"],"set":{"kind":t[2]["kind"],"pt":"77"}})
            ops.append({"op":"tree.flatten"})
        out.append({"id":f"m{n}","ops":ops})
    return out
def from_docs(dump, al):
    flat = [(k, s) for k in al for s in al[k]]
    text = lambda d: "\n".join(flat[i - 1][1] for i in d["q"]) + ("\n" if d["q"] and not d["kind"].endswith("Item") and d["kind"] != "header" else "")
    return group([{"op":o,"kind":d["kind"],"text":text(d)} for d in dump for o in (("doc.parse", "doc.iter") if d["kind"] in ITER else ("doc.parse",))], 25)
ITER = ("layout", "varPool", "listPool", "compPool", "mbPool", "eventPool")
def from_res(dump):
    out = []
    for n, h in enumerate(dump):
        ops = [{"op":"res.new"}]
        for e in h:
            if e["op"] == "put": ops.append({"op":"res.put","id":e["id"],"file":e["file"],"t":e["t"]})
            elif e["op"] == "remove": ops.append({"op":"res.remove","id":e["id"]})
            else: ops.append({"op":"fs." + e["op"],"p":"images/1/p.png"})
        ops += [{"op":"res.get","id":"a"},{"op":"res.get","id":"b"}]
        out.append({"id":f"m{n}","ops":ops})
    return out
def from_crypt(dump, g):
    out = []
    for n, d in enumerate(dump):
        enc = d["enc"]
        bad = list(enc); k = g.r.randrange(len(bad)); bad[k] ^= 1 << g.r.randrange(8)
        out.append({"id":f"m{n}","ops":[{"op":"crypt.enc","data":d["data"]},{"op":"crypt.dec","data":enc}] + ([{"op":"crypt.dec","data":bad},{"op":"crypt.dec","data":enc[:-1]},{"op":"crypt.dec","data":enc[16:]}] if n % 3 == 0 else [])})
    return out
def from_dates(dump):
    g = G(1)
    ops = []
    for d in dump:
        m = g.m_project(); m.update(days=d["days"], secs=d["secs"])
        ops.append({"op":"doc.write","kind":"project","model":m})
    return group(ops, 25)
def from_proj(dump, prop):
    E = edits_for(prop)
    out = []
    for n, d in enumerate(dump):
        ops = [{"op":"fs.touch","p":"images/1/p.png"},{"op":"fs.touch","p":"icons/1/i.png"},{"op":"sess.new","project":starts()[d["start"] - 1]}]
        h = d["h"]
        for x in h:
            if x > 0: ops.append(stringy(E[x - 1]))
            elif x == 0: ops += [{"op":"sess.save"},{"op":"sess.load","res":"keep"}]
            else: ops += ([{"op":"sess.edit","edit":"icon","v":[]}] if prop == "C19" else []) + [{"op":"sess.save"},{"op":"sess.load","res":"none"}]   # known finding: the icon flag
        if h[-1] > 0: ops += [{"op":"sess.save"},{"op":"sess.load","res":"keep"}]
        # loading and saving without an edit in between
        if prop == "C20": ops = [o for x in ops for o in ([x, {"op":"sess.save"}] if x["op"] in ("sess.edit","sess.load","sess.new") else [x])]
        if prop == "C19": ops.append({"op":"sess.save"})
        out.append({"id":f"m{n}","ops":ops})
    return out
def from_block_enc(dump): return group([{"op":"blocks.enc","forest":f} for f in dump], 20)
def shape_ids(g, flat):
    """the same list with other ids and the rows after the first in another order"""
    ids = [r["id"] for r in flat]
    new = dict(zip(ids, map(str, g.r.sample([0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 2147483647] + list(range(12, 12 + len(ids))), len(ids)))))
    # ids that no pointer (a signed number) leads to reach up to 2^32 - 1
    led = {str(r[k]) for r in flat for k in ("next","ss1","ss2")}
    far = [i for i in ids if i not in led]
    if far and g.p(.3): new.update(zip(g.r.sample(far, min(len(far), 2)), g.r.sample(["2147483648","4294967295","4294967294","3000000000","2147483649","4294900000"], 2)))
    ptr = lambda n: n if n < 0 else int(new[str(n)])
    out = []
    for r in flat:
        q = copy.deepcopy(r)
        q["id"] = new[r["id"]]
        for k in ("next","ss1","ss2"): q[k] = ptr(q[k])
        for p in q["params"]:
            if p["s"].startswith("@"): p["s"] = "@" + new[p["s"][1:]]
        out.append(q)
    rest = out[1:]; g.r.shuffle(rest)
    return out[:1] + rest
def from_block_dec(dump, seed):
    g = G(f"{seed}/dec")
    ops = []
    for f in dump:
        fl = Enc(g).list(f)
        ops.append({"op":"blocks.dec","flat":fl})
        ops.append({"op":"blocks.dec","flat":shape_ids(g, fl)})
        ops.append({"op":"blocks.dec","flat":break_flat(g, shape_ids(g, fl))})
    return group(ops, 25)
def from_flat(dump): return group([{"op":"blocks.dec","flat":f} for f in dump], 40)

# ---------------------------------------------------------------- contents
def from_content(dump):
    out = []
    for h in dump:
        ops = [{"op":"content.build","items":[]}]
        for e in h:
            k = e["op"]
            o = {"op":"content." + k}
            if k in ("parse","parse_wo"): o["spec"] = " ".join(e["words"])
            if k in ("parse","apply"): o["args"] = e["params"]
            if k == "blocks": o["have"] = e["have"]
            if k == "set": o.update(i=str(e["i"]), item=e["item"])
            ops.append(o)
        out.append(ops + [{"op":"content.args"},{"op":"content.string"}])
    return [{"id":"","ops":sum(out[i:i + 8], [])} for i in range(0, len(out), 8)]

# ---------------------------------------------------------------- making things
def from_make(dump):
    out = []
    for h in dump:
        ops = [{"op":"make.start"}]
        for e in h:
            k = e["op"]
            o = {"op":"make." + k}
            if k == "text": o["text"] = e["text"]
            if k == "arg": o["item"] = e["item"]
            if k == "block": o.update({x: e[x] for x in ("ctor","cat","opc","kind","tn")})
            ops.append(o)
        out.append(ops + [{"op":"make.code"}])
    return [{"id":"","ops":sum(out[i:i + 8], [])} for i in range(0, len(out), 8)]

# ---------------------------------------------------------------- parts of a project
def full_docs():
    P = Proj(G(11), 1, 1)
    return P.docs(P.lower(starts()[1])), P.files(starts()[1])
def match_parts():
    """the parts two screens and one left-over one are stored as; every text ends with a line break"""
    g = G(21)
    t = Text(g)
    docs, _ = full_docs()
    item = lambda n, i: t.file_line({"name":n,"ftype":"Activity","kbd":"Hidden" if i else "Visible","toolbar":"true","fullscreen":"false" if i else "true","drawer":"false","fab":"true","orientation":"Both","theme":"None" if i else "Default"})
    out = {"project":docs["project"],"library":docs["library"],"resource":"@images\n@sounds\n@fonts\n",
           "file/0":"@activity\n" + item("main", 0) + "\n" + item("b_c", 1) + "\n@customview\n","file/1":"@activity\n" + item("b_c", 1) + "\n" + item("main", 0) + "\n@customview\n"}
    # what is left over goes by names that are easily taken for those of the others
    for n, j, v in (("main","MainActivity",1), ("b_c","BCActivity",2), ("stray","mainActivity",0)):
        out[f"view/layout/{n}"] = "@%s.xml\n%s\n%s\n\n" % ("Main" if n == "stray" else n, t.view({**base_raw(0, "l" + n),"parent":"=root"}), t.view({**base_raw(3, "b" + n),"parent":"=l" + n,"parentType":"0"}))
        out[f"view/fab/{n}"] = "@%s.xml_fab\n%s\n\n" % ("B_c" if n == "stray" else n, t.view({**base_raw(16, "_fab"),"image.resName":"=" + n}))
        out[f"logic/{n}"] = "@%s.java_var\n%d:v_%s\n\n@%s.java_events\n%s\n\n@%s.java_b%s_onClick\n%s\n\n" % (j, v, n, j, t.event_line({"name":"onClick","etype":"1","target":"b" + n,"ttype":"0"}), j, n,
            t.block_line({"color":"-1","id":"10","next":-1,"op":"op_" + n,"params":[{"s":n}],"spec":"do %s","ss1":-1,"ss2":-1,"type":" ","tn":""}))
    return [(k, x[:-1] if x.endswith("\n") and k.split("/")[0] in ("view","logic") else x) for k, x in out.items()]
NOFILES = {"some":"1","l":[]}
def conts_parts():
    """one screen: the lines its events and moreblocks are declared with, and the code stored under their names and names close to them"""
    p = dict(match_parts())
    t = Text(G(22))
    ev = lambda n, ty, tg, tt: t.event_line({"name":n,"etype":str(ty),"target":tg,"ttype":str(tt)}) + "\n"
    out = {"project":p["project"],"library":p["library"],"resource":p["resource"],"file":p["file/0"].split("\n")[0] + "\n" + p["file/0"].split("\n")[1] + "\n@customview\n","view":p["view/layout/main"],
           "head/events":"@MainActivity.java_events\n","gap":"\n","event/click":ev("onClick", 1, "t", 0),"event/back":ev("onBackPressed", 3, "onBackPressed", 0),"event/create":ev("onCreate", 3, "onCreate", 0),
           "event/comp":ev("onX", 2, "c", 9),"mb/foo":"@MainActivity.java_func\nfoo:do %s.x\n\n"}
    for c in ("t_onClick","onBackPressed_onBackPressed","onCreate_initializeLogic","c_onX","foo_moreBlock","T_onClick","t_onclick","t_onClick_","t_onClick_onClick","onClick_onClick","onBackPressed_initializeLogic","onCreate_onCreate",
              "oncreate_initializelogic","c_onx","c2_onX","foo_moreblock","Foo_moreBlock","foo_foo","foo"):
        out["cont/" + c] = "@MainActivity.java_%s\n%s\n\n" % (c, t.block_line({"color":"-1","id":"10","next":-1,"op":"cont/" + c,"params":[{"s":c}],"spec":"do %s","ss1":-1,"ss2":-1,"type":" ","tn":""}))
    return [(k, x[:-1] if x.endswith("\n") and k.split("/")[0] in ("view","head","gap","event","mb","cont") else x) for k, x in out.items()]
def from_conts(dump):
    p = dict(conts_parts())
    out = []
    for n, d in enumerate(dump):
        ev = [x for x in d["decl"] if x != "mb/foo"]
        lg = "\n".join([p["head/events"]] + [p[x] for x in ev] + [p["gap"]] + [p[x] for x in (["mb/foo"] if "mb/foo" in d["decl"] else []) + d["cont"]])
        docs = {**{k: p[k] for k in KINDS if k != "logic"},"logic":lg}
        out.append({"id":f"m{n}","ops":[{"op":"sess.setraw","docs":docs,"files":NOFILES},{"op":"sess.load","res":"keep"},{"op":"sess.save"},{"op":"sess.load","res":"keep"}]})
    return out
def from_match(dump):
    p = dict(match_parts())
    out = []
    for n, d in enumerate(dump):
        docs = {"project":p["project"],"library":p["library"],"resource":p["resource"],"file":p[f"file/{d['turn']}"],
                "view":"\n".join(p[x] for x in d["view"]),"logic":"\n".join(p[x] for x in d["logic"])}
        out.append({"id":f"m{n}","ops":[{"op":"sess.setraw","docs":docs,"files":NOFILES},{"op":"sess.load","res":"keep"},{"op":"sess.save"},{"op":"sess.load","res":"keep"}]})
    return out
def route_parts():
    """each of the six files sound (0), damaged (1, 2), as another sound one (3), and as the text of its neighbour (4)"""
    docs, _ = full_docs()
    docs["resource"] = "@images\n" + '{"resFullName":"p.png","resName":"a","resType":1}' + "\n@sounds\n@fonts\n"
    other = {"project":docs["project"].replace('"w"', '"ww"'),"file":re.sub(r'("keyboardSetting": ?)\d', r"\g<1>2", docs["file"]),"library":docs["library"].replace('"Y"', '"N"', 1),"resource":docs["resource"].replace('"a"', '"b"'),
             "view":docs["view"].replace('"b1"', '"b9"'),"logic":docs["logic"].replace("2:", "1:")}
    out = []
    for n, k in enumerate(KINDS):
        nb = KINDS[(n + 1) % 6]
        broken = docs[k].replace("}", "", 1) if k != "project" else docs[k][:-1]
        head = {"project":"[]","file":"@activity\n{}","library":"@admob\n{}","resource":"@images\n{}","view":"@main.xml\n{}","logic":"@MainActivity.java_var\nx"}[k]
        out += [(f"{k}/0", docs[k]), (f"{k}/1", broken), (f"{k}/2", head), (f"{k}/3", other[k]), (f"{k}/4", docs[nb])]
    return out
def from_route(dump):
    p = dict(route_parts())
    files = {"none":{"some":"0","l":[]},"good":{"some":"1","l":[{"k":"path","id":"images/1/p.png","fn":"","t":"-"}]},"gone":{"some":"1","l":[{"k":"path","id":"images/1/gone.png","fn":"","t":"-"}]},"empty":NOFILES}
    out = []
    for n, d in enumerate(dump):
        docs = {k: p[f"{k}/{d['pick'][k]}"] for k in KINDS}
        f = files[d["files"]]
        ops = [{"op":"fs.touch","p":"images/1/p.png"},{"op":"sess.newraw","docs":docs,"files":f},{"op":"sess.parsed"},{"op":"sess.load","res":"keep","via":"from"},{"op":"sess.load","res":"keep","via":"parts"},
               {"op":"sess.crypt","bad":""},{"op":"sess.parsed"},{"op":"sess.crypt","bad":str(n % 6),"how":["cut", "none", "bytes", "tail"][n // 6 % 4]}]
        out.append({"id":f"m{n}","ops":ops})
    return out

def from_libs(dump):
    """each choice loaded, and where it loads, saved and loaded again"""
    P = Proj(G(31), 1, 1)
    base = P.lower(starts()[0])
    out = []
    for n, d in enumerate(dump):
        m = copy.deepcopy(base); m["library"] = d["lib"]
        ops = [{"op":"sess.setraw","docs":P.docs(m),"files":NOFILES},{"op":"sess.load","res":"keep"}]
        if all(c["yn"] != "y" for c in d["pick"].values()): ops += [{"op":"sess.save"},{"op":"sess.load","res":"keep"}]
        out.append({"id":f"m{n}","ops":ops})
    return out
