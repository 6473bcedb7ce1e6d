"""Seeded whole projects: API projects, edits with a mirror of their effect, and independently written data files."""
import copy
from gen import *

def camel(n):
    out, up = "", True
    for c in n:
        if c == "_": up = True; continue
        out += c.upper() if up and c.isascii() else c
        up = False
    return out
def logic_name(n): return camel(n) + "Activity"
def cont_id(e):
    if e["et"] in ("view", "component"): return e["target"] + "_" + e["name"]
    return "onCreate_initializeLogic" if e["name"] == "onCreate" else e["name"] + "_" + e["name"]
LAYOUTS = ["main","second","a_b","debug_screen","x","screen2","my_long_name_3","list_item","java","var","日本","main_activity","z9","func_list","Upper_Case","a1_b2","a__b","_x","x_","a_1","ab","a_bc","main_","fab","b_fab","é_ü","root","m","Main","MAIN","X","A_b","second_","logic","screen_2x","2d_a","a_3d_b"]
FILES = {"Image":("images","png"),"Sound":("sounds","mp3"),"Font":("fonts","ttf"),"CustomIcon":("icons","png")}
TYPES = [("images","Image"),("sounds","Sound"),("fonts","Font")]
FLAGS = ["fullscreenOn","toolbarOn","drawerOn","fabOn"]

class Proj:
    def __init__(self, g, depth=2, width=3): self.g, self.depth, self.width = g, depth, width
    # ------------------------------------------------------------ parts
    def meta(self):
        m = self.g.m_project()
        return {k: m[k] for k in ("id","appName","wsName","pkgName","days","secs","swVer","verName","verCode")}
    def colors(self): return {k: self.g.color() for k in ("cPrimary","cPrimaryDark","cAccent","cNormal","cHighlight")}
    def libs(self):
        g = self.g
        return {"compat":g.one(["true","false"]),
                "firebase":[{"projectId":g.s(),"appId":g.s(),"apiKey":g.s(),"bucket":g.s()}] if g.p(.5) else [],
                "admob":[{"adUnits":g.many(lambda: {"id":g.s(),"name":g.s()}, 3),"testDevices":g.many(g.s, 3)}] if g.p(.5) else [],
                "gmap":[{"apiKey":g.s()}] if g.p(.5) else []}
    def file(self, t, name=None):
        """a resource file and the path it needs on disk (or None)"""
        g = self.g
        d, ext = FILES[t]
        fn = name or self.fname(ext)
        k = g.one(["path","str","u32"])
        if k == "path":
            # now and then by a detour
            p = f"{d}/../{d}/y/{fn}" if g.p(.06) else f"{d}/{g.one(['601','x'])}/{fn}"
            return {"k":"path","id":p,"fn":"","t":"-"}, p
        return {"k":k,"id":g.uid("r") if k == "str" else str(g.one([0, 7, 4294967295, g.r.randint(0, 99999)])),"fn":fn,"t":t}, None
    def fname(self, ext):
        g = self.g
        return g.idword(["img","snd","a b","é","x.y","icon","日本","images",".hidden"]) + g.uid("_") + g.one(["." + ext, "." + ext, "", ".9.png", ".", ".TXT", g.word(EXTS)])
    def store(self, n=2, touch=None):
        res, names, ids = {}, [], []
        for l, t in TYPES:
            res[l], here = [], set()
            for _ in range(self.g.r.randint(0, n) if n == 0 or self.g.p(.97) else 12):
                # a name may stand for files of several types, but for one file of each
                fn = self.g.one(names) if names and self.g.p(.2) else self.fname(FILES[t][1])
                if names and self.g.p(.08): fn = self.g.near(self.g.one(names))
                if fn in here: continue
                here.add(fn); names.append(fn)
                f, p = self.file(t, fn)
                if p and touch is not None: touch.append(p)
                i = self.g.one(names) if self.g.p(.15) else self.g.near(self.g.one(ids)) if ids and self.g.p(.1) else self.g.uid("res")
                if i in ids: i = self.g.uid("res")
                ids.append(i)
                res[l].append({"id":i,"file":f})
        return res
    def shared(self, res):
        """an id stands under several types: no call makes such a store, a project's data may hold one"""
        have = [(l, e) for l, _ in TYPES for e in res[l]]
        for _ in range(self.g.one([1, 1, 2, 3])):
            if len(have) < 2: break
            (l, e), (k, d) = self.g.r.sample(have, 2)
            if l != k and all(x["id"] != d["id"] for x in res[l]): e["id"] = d["id"]
        return res
    def code(self, depth=None): return self.g.forest(self.depth if depth is None else depth, self.width)
    def var(self, used=None):
        v = self.g.var()
        return v
    def comp(self):
        k = self.g.one(COMPONENTS)
        return {"id":self.g.uid("comp"),"kind":k,"p":self.g.s() if k in WITH_PARAM else ""}
    def mb(self): 
        i = self.g.idword(["mb","foo","a_b","名前","F","onCreate","x"]) + self.g.uid("") + (self.g.one(["_moreBlock","moreBlock","_"]) if self.g.p(.08) else "")
        items = self.g.items(0, empty=True)
        return {"id":i,"own":i,"items":items,"code":self.code()}
    def event(self, used=()):
        while True:
            g = self.g
            et = g.one(["view","view","component","activity"])
            if et == "activity": e = {"name":g.idword(["onCreate","onCreate","onBackPressed","initializeLogic","onPause","onStart","名前","onCreateMenu","onCreate2","onCreate_","onCreat","a","a_a"]),"et":et,"target":"","ctype":"0"}
            elif used and g.p(.1):
                # takes after one that is there
                c = g.near(g.one(sorted(used)))
                if c.count("_") != 1 or c[0] == "_" or c[-1] == "_": continue
                e = {"name":c.split("_")[1],"et":g.one(["view","component"]),"target":c.split("_")[0],"ctype":"0"}
            else: e = {"name":g.idword(["onClick","onClick","onItemSelected","onCreate","onLongClick","Click","onClick_","_onClick","a"]),"et":et,"target":g.idword(["button1","textview_2","x","intent","onCreate","名前","button","a","a_onClick","Button1",""]) + g.one(["","","2","_"]),"ctype":g.rng(0,255) if et == "component" else "0"}
            if cont_id(e) not in used: break
            if g.p(.1): e["target"] += g.uid("u")
            if et != "activity" and cont_id(e) not in used: break
        e["code"] = self.code()
        return e
    def uniq(self, l, key):
        seen, out = set(), []
        for x in l:
            if x[key] not in seen: seen.add(x[key]); out.append(x)
        return out
    def fab(self):
        v = self.g.view(0, agree=self.g.p(.6))
        if v["kind"]["k"] != "Fab" and self.g.p(.7): v = view_of(self.g.raw(kind=16))
        return [v]
    def screen(self, name):
        g = self.g
        ev, used = [], set()
        for _ in range(g.some(4)):
            e = self.event(used)
            used.add(cont_id(e)); ev.append(e)
        mbs = self.uniq(g.many(self.mb, 2), "id")
        return {"layoutName":name,"javaName":logic_name(name),"layout":g.tree(self.depth, self.width, agree=g.p(.6)),"vars":self.uniq(g.many(g.var, 3), "name"),"lists":self.uniq(g.many(g.var, 2), "name"),
                "mbs":mbs,"comps":self.uniq(g.many(self.comp, 2), "id"),"events":ev,"fab":self.fab() if g.p(.5) else [],
                "fullscreenOn":g.scalar("bool"),"toolbarOn":g.scalar("bool"),"drawerOn":g.scalar("bool"),"fabOn":g.scalar("bool"),"orientation":g.scalar("fori"),"theme":g.scalar("theme"),"kbd":g.scalar("kbd")}
    def names(self, n, taken=()):
        mined = [self.g.idword(LAYOUTS, 1) for _ in range(2)]
        pool = [x for x in dict.fromkeys(LAYOUTS + mined) if x not in taken and logic_name(x) not in {logic_name(t) for t in taken}]
        out = []
        for x in self.g.r.sample(pool, len(pool)):
            if len(out) < n and logic_name(x) not in {logic_name(y) for y in out}: out.append(x)
        return out
    def project(self, screens=None, touch=None, res=2):
        g = self.g
        n = g.r.randint(0, 3) if screens is None else screens
        was = self.depth, self.width
        if g.p(.03):
            # many small ones
            n, self.depth, self.width = g.one([5, 9, 10, 11]), 0, 1
        ns = self.names(n)
        cv = self.names(g.some(2), taken=ns)
        icon = []
        if g.p(.4):
            f, p = self.file("CustomIcon")
            icon = [f]
            if p and touch is not None: touch.append(p)
        a = {"meta":self.meta(),"colors":self.colors(),"screens":[self.screen(n) for n in ns],"cviews":[{"name":n,"layout":g.tree(self.depth, self.width, agree=g.p(.6))} for n in cv],
             "libs":self.libs(),"res":self.store(res, touch),"icon":icon}
        self.depth, self.width = was
        return a

    # ------------------------------------------------------------ edits; a is changed alongside
    def ids(self, tree):
        out = []
        for v in tree: out += [v["id"]] + self.ids(v["kids"])
        return out
    def find(self, tree, i):
        for v in tree:
            if v["id"] == i: return v
            x = self.find(v["kids"], i)
            if x: return x
    def take(self, tree, i):
        for n, v in enumerate(tree):
            if v["id"] == i: return tree.pop(n)
            x = self.take(v["kids"], i)
            if x: return x
    def view_edit(self, tree):
        """one edit of a view tree, applied to it; returns the fields of the operation"""
        g = self.g
        ids = self.ids(tree)
        op = g.one(["add","set","set","move","del"]) if ids else "add"
        if op == "add":
            parent = g.one([""] + ids)
            kids = self.find(tree, parent)["kids"] if parent else tree
            pos = g.r.randint(0, len(kids) + 1)
            v = g.view(1, 2, agree=g.p(.5))
            kids.insert(min(pos, len(kids)), copy.deepcopy(v))
            return op, {"parent":parent,"pos":str(pos),"view":v}
        i = g.one(ids)
        if op == "del":
            self.take(tree, i)
            return op, {"id":i}
        if op == "move":
            v = self.take(tree, i)
            parent = g.one([""] + self.ids(tree))
            kids = self.find(tree, parent)["kids"] if parent else tree
            pos = g.r.randint(0, len(kids))
            kids.insert(pos, v)
            return op, {"id":i,"parent":parent,"pos":str(pos)}
        v = self.find(tree, i)
        s = {}
        for k in COMMON:
            if k != "id" and g.p(.2): s[k] = g.scalar(VIEW_TYPES[COMMON[k]])
        if g.p(.6): s["kind"] = g.kind()
        if g.p(.15): s["id"] = g.uid()
        if g.p(.3):
            k = g.one([k for k in VIEW_TYPES if k not in ("id","type","parent","parentType") and k not in COMMON.values()])
            s["raw"] = {k: g.scalar(VIEW_TYPES[k])}
            # the raw resource name decides whether an image is an image
            if k == "image.resName" and s["raw"][k] == "-": s["raw"][k] = "=x"
        if not s: s["pt"] = g.scalar("u32")
        for k, x in s.items():
            if k == "raw": v["raw"].update(x)
            else: v[k] = x
        return "set", {"id":i,"set":s}
    AREAS = {"views":["view","view","fab","cview"],"code":["event","event","mb"],"libs":["libs"],"res":["res","icon"],"screens":["screens","flags","var","list","comp","fab","cview"],
             "all":["meta","colors","libs","icon","screens","flags","var","list","comp","mb","event","event","fab","cview","view","view","res"]}
    SORTS = ["meta","colors","libs","icon","screens","flags","var","list","comp","mb","event","fab","cview","view","res"]
    def half(self, old, new):
        """a few of the new values only"""
        g = self.g
        if g.p(.4): return new
        ks = g.r.sample(sorted(new), g.one([1, 1, 2]))
        return {k: new[k] if k in ks else old.get(k, new[k]) for k in new}
    def edit(self, a, area="all", auto=False):
        """a random edit fitting a, applied to a; (ops before it, op) or None"""
        g = self.g
        for _ in range(20):
            e = g.one(self.AREAS.get(area, [area]))
            o, pre = {"op":"sess.edit"}, []
            sc = a["screens"]
            i = g.r.randrange(len(sc)) if sc else None
            if e == "meta": o.update(edit="meta", v=self.half(a["meta"], self.meta())); a["meta"] = o["v"]
            elif e == "colors": o.update(edit="colors", v=self.half(a["colors"], self.colors())); a["colors"] = o["v"]
            elif e == "libs": o.update(edit="libs", v=self.half(a["libs"], self.libs())); a["libs"] = o["v"]
            elif e == "icon":
                if auto: continue
                if a["icon"] and g.p(.5): o.update(edit="icon", v=[])
                else:
                    f, p = self.file("CustomIcon")
                    if p: pre.append({"op":"fs.touch","p":p})
                    o.update(edit="icon", v=[f])
                a["icon"] = o["v"]
            elif e == "screens":
                if sc and g.p(.4): o.update(edit="screen.del", i=str(i)); sc.pop(i)
                else:
                    taken = [s["layoutName"] for s in sc] + [c["name"] for c in a["cviews"]]
                    n = self.names(1, taken)
                    if not n: continue
                    s = self.screen(n[0])
                    o.update(edit="screen.add", v=s); sc.append(copy.deepcopy(s))
            elif e == "cview":
                if a["cviews"] and g.p(.5):
                    j = g.r.randrange(len(a["cviews"]))
                    if g.p(.4): o.update(edit="cview.del", i=str(j)); a["cviews"].pop(j)
                    else:
                        op, f = self.view_edit(a["cviews"][j]["layout"])
                        o.update(edit="view." + op, where="cview", i=str(j), **f)
                else:
                    taken = [s["layoutName"] for s in sc] + [c["name"] for c in a["cviews"]]
                    n = self.names(1, taken)
                    if not n: continue
                    c = {"name":n[0],"layout":g.tree(2, 2)}
                    o.update(edit="cview.add", v=c); a["cviews"].append(copy.deepcopy(c))
            elif e == "res":
                if auto: continue
                have = [(l, x["id"]) for l, _ in TYPES for x in a["res"][l]]
                if have and g.p(.4):
                    l, x = g.one(have)
                    o.update(edit="res.del", id=x); a["res"][l] = [y for y in a["res"][l] if y["id"] != x]
                elif have and g.p(.3):   # an id that is taken, or a file that is not there
                    l, t = g.one(TYPES)
                    f, p = self.file(t)
                    if p and g.p(.5): o.update(edit="res.put", id=g.uid("res"), file=f, t=t)
                    else:
                        if p: pre.append({"op":"fs.touch","p":p})
                        o.update(edit="res.put", id=g.one(have)[1], file=f, t=t)
                else:
                    l, t = g.one(TYPES)
                    f, p = self.file(t)
                    if p: pre.append({"op":"fs.touch","p":p})
                    x = g.uid("res")
                    o.update(edit="res.put", id=x, file=f, t=t); a["res"][l].append({"id":x,"file":f})
            elif i is None: continue
            elif e == "flags":
                v = {**{k: g.scalar("bool") for k in FLAGS},"orientation":g.scalar("fori"),"theme":g.scalar("theme"),"kbd":g.scalar("kbd")}
                if g.p(.6):
                    # one of them changes
                    k = g.one(sorted(v))
                    n = next((x for x in (g.scalar({"orientation":"fori","theme":"theme","kbd":"kbd"}.get(k, "bool")) for _ in range(20)) if x != sc[i][k]), sc[i][k])
                    v = {**{q: sc[i][q] for q in v}, k: n}
                o.update(edit="screen.flags", i=str(i), v=v)
                sc[i].update(o["v"])
            elif e in ("var","list"):
                l = sc[i][e + "s"]
                if l and g.p(.4):
                    n = g.one(l)["name"]
                    o.update(edit=e + ".del", i=str(i), name=n)
                else:
                    v = g.one(l) if l and g.p(.3) else g.var()
                    n = v["name"]
                    o.update(edit=e + ".add", i=str(i), v={**v,"type":g.one(VARTYPES)})
                sc[i][e + "s"] = [x for x in l if x["name"] != n] + ([o["v"]] if "v" in o else [])
            elif e == "comp":
                l = sc[i]["comps"]
                if l and g.p(.4): n = g.one(l)["id"]; o.update(edit="comp.del", i=str(i), name=n)
                else:
                    c = self.comp()
                    if l and g.p(.3): c["id"] = g.one(l)["id"]
                    n = c["id"]; o.update(edit="comp.add", i=str(i), v=c)
                sc[i]["comps"] = [x for x in l if x["id"] != n] + ([o["v"]] if "v" in o else [])
            elif e == "mb":
                l = sc[i]["mbs"]
                c = g.r.random()
                if l and c < .3:
                    n = g.one(l)["id"]; o.update(edit="mb.del", i=str(i), name=n); sc[i]["mbs"] = [x for x in l if x["id"] != n]
                elif l and c < .6:
                    x = g.one(l); o.update(edit="mb.code", i=str(i), name=x["id"], v=self.code()); x["code"] = o["v"]
                else:
                    m = self.mb(); o.update(edit="mb.add", i=str(i), v=m); sc[i]["mbs"] = [x for x in l if x["id"] != m["id"]] + [copy.deepcopy(m)]
            elif e == "event":
                l = sc[i]["events"]
                c = g.r.random()
                if l and c < .2:
                    j = g.r.randrange(len(l)); o.update(edit="ev.del", i=str(i), j=str(j)); l.pop(j)
                elif l and c < .5:
                    j = g.r.randrange(len(l)); o.update(edit="ev.code", i=str(i), j=str(j), v=self.code()); l[j]["code"] = o["v"]
                elif l and c < .7:
                    j = g.r.randrange(len(l)); b = g.block(2); o.update(edit="ev.push", i=str(i), j=str(j), v=b); l[j]["code"] = l[j]["code"] + [b]
                else:
                    x = self.event({cont_id(y) for y in l} | {m["id"] + "_moreBlock" for m in sc[i]["mbs"]})
                    pos = g.r.randint(0, len(l)); o.update(edit="ev.add", i=str(i), pos=str(pos), v=x); l.insert(pos, copy.deepcopy(x))
            elif e == "fab":
                o.update(edit="fab", i=str(i), v=[] if sc[i]["fab"] and g.p(.5) else self.fab()); sc[i]["fab"] = copy.deepcopy(o["v"])
            elif e == "view":
                op, f = self.view_edit(sc[i]["layout"])
                o.update(edit="view." + op, where="screen", i=str(i), **f)
            return pre + [o]
        return []
    def reloaded(self, a):
        """the mirror after a save and a load: what a later edit needs to know"""
        for s in a["screens"]:
            on = [e for e in s["events"] if e["et"] == "activity" and e["name"] == "onCreate"]
            s["events"] = on + [e for e in s["events"] if e not in on]
        return a

    # ------------------------------------------------------------ data files written by our own hand
    def lower(self, a):
        g = self.g
        def lev(e): return {"name":e["name"],"etype":{"view":"1","component":"2","activity":"3"}[e["et"]],"target":e["name"] if e["et"] == "activity" else e["target"],"ttype":e["ctype"]}
        scr, lay, fabs = [], [], []
        for s in a["screens"]:
            conts = [{"id":cont_id(e),"flat":Enc(g).list(e["code"])} for e in s["events"]] + [{"id":m["id"] + "_moreBlock","flat":Enc(g).list(m["code"])} for m in s["mbs"]]
            if g.p(.5): g.r.shuffle(conts)
            pool = lambda l: {"some":"1","l":l} if l or g.p(.7) else {"some":"0","l":[]}
            x = {"name":s["javaName"],"own":s["javaName"],"conts":conts,"vars":pool(s["vars"]),"lists":pool(s["lists"]),"comps":pool([{"id":c["id"],"p1":c["p"],"p2":"","p3":"","type":str(COMPONENTS.index(c["kind"]) + 1)} for c in s["comps"]]),
                 "events":pool([lev(e) for e in s["events"] if not (e["et"] == "activity" and e["name"] == "onCreate")]),
                 "mbs":pool([{"id":m["id"],"own":m["id"],"spec":" ".join(words_of(m["items"])),"words":words_of(m["items"])} for m in s["mbs"]])}
            scr.append(x)
            lay.append({"name":s["layoutName"],"views":g.flat_of(s["layout"])})
            for v in s["fab"]:
                r = dict(v["raw"]); r["parent"] = "-"; r["parentType"] = "-1"
                fabs.append({"name":s["layoutName"],"view":r})
        for c in a["cviews"]: lay.append({"name":c["name"],"views":g.flat_of(c["layout"])})
        if g.p(.4): g.r.shuffle(scr); g.r.shuffle(lay); g.r.shuffle(fabs)
        def act(s): return {"name":s["layoutName"],"ftype":"Activity","kbd":s["kbd"],"toolbar":s["toolbarOn"],"fullscreen":s["fullscreenOn"],"drawer":s["drawerOn"],"fab":s["fabOn"],"orientation":s["orientation"],"theme":s["theme"]}
        def cv(c): return {"name":c["name"],"ftype":"CustomView","kbd":"Unspecified","toolbar":"false","fullscreen":"false","drawer":"false","fab":"false","orientation":"Both","theme":"None"}
        off = lambda t: {"adUnits":[],"data":"","libType":t,"reserved1":"","reserved2":"","reserved3":"","testDevices":[],"useYn":"N"}
        lb = {"firebaseDB":off("0"),"compat":off("1"),"admob":off("2"),"googleMap":off("3")}
        l = a["libs"]
        if l["compat"] == "true": lb["compat"]["useYn"] = "Y"
        for f in l["firebase"]: lb["firebaseDB"].update(useYn="Y",data=f["projectId"],reserved1=f["appId"],reserved2=f["apiKey"],reserved3=f["bucket"])
        for f in l["admob"]: lb["admob"].update(useYn="Y",adUnits=f["adUnits"],testDevices=f["testDevices"])
        for f in l["gmap"]: lb["googleMap"].update(useYn="Y",data=f["apiKey"])
        name = lambda f: f["id"].split("/")[-1] if f["k"] == "path" else f["fn"]
        return {"project":{**a["meta"],**a["colors"],"customIcon":"true" if a["icon"] else "false"},
                "file":{"activities":[act(s) for s in a["screens"]],"customViews":[cv(c) for c in a["cviews"]]},"library":lb,
                "resource":{k:[{"fullName":name(e["file"]),"name":e["id"],"type":"1"} for e in a["res"][k]] for k, _ in TYPES},
                "view":{"layouts":lay,"fabs":fabs},"logic":{"screens":scr}}
    def docs(self, m):
        t = Text(self.g)
        return {k: t.doc(k, m[k]) for k in ("project","file","library","resource","view","logic")}
    def files(self, a): return {"some":"1","l":[e["file"] for k, _ in TYPES for e in a["res"][k]] + a["icon"]}
