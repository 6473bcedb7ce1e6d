"""Seeded generators of scripts for the harness, and an independent writer of data-file text.
Everything here produces inputs only; what is right or wrong is decided by the TLA+ specification."""
import glob, json, os, random, re
from decimal import Decimal

def mined():
    """short texts and numbers the crate's sources mention: inputs worth trying (never a source of expectations)"""
    words, nums = set(), set()
    for f in glob.glob("/repo/src/**/*.rs", recursive=True):
        t = open(f, encoding="utf-8", errors="replace").read()
        for m in re.finditer(r'"((?:[^"\\\n]|\\.){1,24})"', t):
            w = m[1].replace('\\"', '"').replace("\\\\", "\\").replace("\\n", "\n")
            if not re.search(r"\\|[{}]", w): words.add(w)
        for m in re.finditer(r"'([^'\\\n])'", t): words.add(m[1])
        for m in re.finditer(r"(?<![\w.])(\d[\d_]{0,12})(?:[iu](?:8|16|32|64|size)|f(?:32|64))?(?![\w.]\w)", t): nums.add(int(m[1].replace("_", "")))
        for m in re.finditer(r"(?<!\w)0x([0-9a-fA-F_]{1,10})", t): nums.add(int(m[1].replace("_", "") or "0", 16))
        for m in re.finditer(r"(?<!\w)(\d+)(?:[iu]\d+)? << (\d{1,2})(?!\d)", t): nums.add(int(m[1]) << int(m[2]))
    return sorted(words), sorted(nums)
MINED, NUMS = mined()
# words and numbers that were not there when these generators were last tried come up more often: what is new is worth more tries.
# (python3 bin/gen.py writes the list anew)
KNOWN_FILE = os.environ.get("KNOWN_WORDS") or os.path.join(os.path.dirname(os.path.abspath(__file__)), "known-words.json")
KNOWN = json.load(open(KNOWN_FILE, encoding="utf-8")) if os.path.exists(KNOWN_FILE) else {"words":MINED,"nums":NUMS}
NEW = set(MINED) - set(KNOWN["words"])
NEWNUMS = sorted(set(NUMS) - set(KNOWN["nums"]))
# those of them that can stand for a name, and are not one the generators rely on
RELIED_ON = {"root"} | {m[1] for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "*.py")) for m in re.finditer(r'"(\w+)"', open(f, encoding="utf-8").read())}
IDWORDS = [w for w in MINED if re.fullmatch(r"[A-Za-z_]\w{0,23}", w, re.A) and re.search(r"[A-Za-z]", w)]
FREE_IDWORDS = [w for w in IDWORDS if len(w) > 2 and w not in RELIED_ON]
OPWORDS = [w for w in MINED if w not in ("true", "false")]
TEXTWORDS = [w for w in MINED if not re.search(r"[ \n]", w) and not w.startswith("%")]
EXTS = [w for w in MINED if re.fullmatch(r"\.\w{1,8}", w)] or [".png"]

VIEW_TYPES = {
 "adSize":"str","adUnitId":"str","alpha":"f32","checked":"b01","choiceMode":"choice","clickable":"b01","customView":"str","dividerHeight":"u32","enabled":"b01","firstDayOfWeek":"u8","id":"str",
 "image.resName":"ostr","image.rotate":"i16","image.scaleType":"scale","indeterminate":"bstr","index":"u32","layout.backgroundColor":"color","layout.gravity":"u8","layout.height":"size","layout.layoutGravity":"u8",
 "layout.marginBottom":"u32","layout.marginLeft":"u32","layout.marginRight":"u32","layout.marginTop":"u32","layout.orientation":"lori","layout.paddingBottom":"u32","layout.paddingLeft":"u32","layout.paddingRight":"u32",
 "layout.paddingTop":"u32","layout.weight":"u32","layout.weightSum":"u32","layout.width":"size","max":"u32","parent":"ostr","parentType":"i8","preId":"ostr","preIndex":"i32","preParent":"ostr","preParentType":"i8",
 "progress":"u32","progressStyle":"str","scaleX":"f32","scaleY":"f32","spinnerMode":"spinner","text.hint":"str","text.hintColor":"color","text.imeOption":"ime","text.inputType":"input","text.line":"u32","text.singleLine":"b01",
 "text.text":"str","text.textColor":"color","text.textFont":"str","text.textSize":"u32","text.textType":"tstyle","translationX":"f32","translationY":"f32","type":"u8"}
ENUMS = {
 "choice":{"None":0,"Single":1,"Multi":2},"spinner":{"Dialog":0,"Dropdown":1},"lori":{"Vertical":1,"Unspecified":0,"Horizontal":-1},
 "ime":{"Normal":0,"None":1,"Go":2,"Search":3,"Send":4,"Next":5,"Done":6},
 "input":{"NumberDecimal":8194,"NumberSigned":4098,"NumberSignedDecimal":12290,"Password":129,"Phone":3,"Text":1},
 "tstyle":{"Normal":0,"Bold":1,"Italic":2,"BoldItalic":3},"ftype":{"Activity":0,"CustomView":1,"Drawer":2},"kbd":{"Unspecified":0,"Visible":1,"Hidden":2},
 "fori":{"Portrait":0,"Landscape":1,"Both":2},"theme":{"None":-1,"Default":0,"Actionbar":1,"Fullscreen":2}}
SCALE = {"Center":"CENTER","FitXy":"FIT_XY","FitStart":"FIT_START","FitCenter":"FIT_CENTER","FitEnd":"FIT_END","CenterCrop":"CENTER_CROP","CenterInside":"CENTER_INSIDE"}
RANGES = {"u8":(0,255),"u32":(0,4294967295),"i8":(-128,127),"i16":(-32768,32767),"i32":(-2147483648,2147483647)}
KIND_FIELDS = {
 "LinearLayout":{"orientation":"layout.orientation","gravity":"layout.gravity"},
 "ScrollView":{"gravity":"layout.gravity"},
 "Button":{"text":"text.text","textColor":"text.textColor","textSize":"text.textSize","textStyle":"text.textType"},
 "TextView":{"text":"text.text","textColor":"text.textColor","textSize":"text.textSize","textStyle":"text.textType","singleLine":"text.singleLine","textFont":"text.textFont","lines":"text.line"},
 "EditText":{"text":"text.text","textColor":"text.textColor","textSize":"text.textSize","textStyle":"text.textType","singleLine":"text.singleLine","textFont":"text.textFont","lines":"text.line","hint":"text.hint","hintColor":"text.hintColor","imeOption":"text.imeOption","inputType":"text.inputType"},
 "ImageView":{"resName":"image.resName","scaleType":"image.scaleType"},
 "ProgressBar":{"max":"max","progress":"progress","indeterminate":"indeterminate","progressStyle":"progressStyle"},
 "ListView":{"dividerHeight":"dividerHeight","customView":"customView"},"Spinner":{"spinnerMode":"spinnerMode"},
 "CheckBox":{"checked":"checked","text":"text.text","textColor":"text.textColor","textSize":"text.textSize","textFont":"text.textFont","textStyle":"text.textType"},
 "Switch":{"checked":"checked","text":"text.text","textColor":"text.textColor","textSize":"text.textSize","textFont":"text.textFont","textStyle":"text.textType"},
 "SeekBar":{"max":"max","progress":"progress"},"CalendarView":{"firstDayOfWeek":"firstDayOfWeek"},"Fab":{"resName":"image.resName"},"AdView":{"adSize":"adSize"},"WebView":{},"MapView":{}}
VIEW_CODES = {"LinearLayout":0,"Button":3,"TextView":4,"EditText":5,"ImageView":6,"WebView":7,"ProgressBar":8,"ListView":9,"Spinner":10,"CheckBox":11,"Switch":13,"SeekBar":14,"CalendarView":15,"Fab":16,"AdView":17,"MapView":18}
CODE_VIEWS = {str(v): k for k, v in VIEW_CODES.items()}
COMMON = {"id":"id","bg":"layout.backgroundColor","h":"layout.height","w":"layout.width","pt":"layout.paddingTop","pr":"layout.paddingRight","pb":"layout.paddingBottom","pl":"layout.paddingLeft",
 "mt":"layout.marginTop","mr":"layout.marginRight","mb":"layout.marginBottom","ml":"layout.marginLeft","weight":"layout.weight","weightSum":"layout.weightSum","lgrav":"layout.layoutGravity"}
COMPONENTS = ["Intent","SharedPreferences","Calendar","Vibrator","Timer","FirebaseDatabase","Dialog","MediaPlayer","SoundPool","ObjectAnimator","Gyroscope","FirebaseAuth","InterstitialAd","FirebaseStorage","Camera","FilePicker","RequestNetwork","TextToSpeech","SpeechToText","BluetoothConnect","LocationManager"]
WITH_PARAM = {"SharedPreferences","FirebaseDatabase","FirebaseStorage","FilePicker"}
VARTYPES = ["Boolean","Integer","String","HashMap"]
BLOCK_LETTER = {"Regular":" ","Boolean":"b","String":"s","Number":"d","View":"v","Component":"p","OneNest":"c","TwoNest":"e","Ending":"f","ListString":"l","ListNumber":"l"}
CATS = ["Variable","List","Control","Operator","Math","File","ViewFunc","ComponentFunc","MoreBlock"]
STRINGS = ["", "a", "hello", "Hello world", "two  spaces", " lead", "trail ", "0", "-1", "1.5", "true", "false", "null", "{}", "[1]", "a:b", "\"quoted\"", "back\\slash", "tab\tx", "line\nbreak", "\n", "é", "日本語", "🙂 emoji", "100%", "%s", "% d", "<b>&amp;</b>", "@", "@12", "@main.xml", "a@b", "x" * 40, "\u2028", "\u0000nul"]
WORDS = ["set", "to", "if", "is", "a", "é", "日本", "x:y", "\"q\"", "{", "@", "50%", "a%s", "+", "\\n", "%", ""]

class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.bare = set()
    def one(self, l): return self.r.choice(l)
    def p(self, x): return self.r.random() < x
    def word(self, l):
        new = [w for w in l if w in NEW]
        return self.one(new) if new and self.p(.5) else self.one(l)
    def num(self): return self.one(NEWNUMS) if NEWNUMS and self.p(.5) else self.one(NUMS)
    def uid(self, pre="v"):
        self.n += 1
        if IDWORDS and self.p(.15):
            w = self.word(FREE_IDWORDS or IDWORDS) if self.p(.5) else self.word(IDWORDS)
            if w in FREE_IDWORDS and w not in self.bare and self.p(.6):
                self.bare.add(w)
                return w
            return self.one([f"{w}{self.n}", f"{w}_{self.n}", f"x{self.n}{w}", f"x{self.n}_{w}"])
        return f"{pre}{self.n}"
    def idword(self, l, p=.12):
        """one of l, or a name the sources mention"""
        if IDWORDS and self.p(p): return self.one(["", "", "", "x", "a_"]) + self.word(IDWORDS) + self.one(["", "", "", "2", "_b"])
        return self.one(l)
    def ident(self):
        return self.one(["a","b","i","txt","linear1","textview_2","myVar","X","a_b","value1","button1","ünï","名前"]) + self.one(["", "", str(self.r.randint(0, 99))])
    def s(self, free=True):
        c = self.r.random()
        if c < .55: return self.one(STRINGS)
        if c < .75 and MINED: return self.one(["", "", "", "x", " ", "a_"]) + self.word(MINED) + (self.one(["", "", "_", "x", "1", ".", " "]) if self.p(.5) else "")
        if c < .76: return self.one(["y" * 300, "ab " * 100, "é" * 257, "z" * 5000])
        return "".join(self.one("abcXYZ 012_-.:,/\\\"'{}[]@%éß日🙂\n\t") for _ in range(self.r.randint(1, 14)))
    def near(self, s):
        """a text that is easily taken for s"""
        if not s: return self.one([" ", "_", "x"])
        k = self.r.randrange(len(s))
        return self.one([s.swapcase(), s.upper(), s.lower(), s[:k] + s[k].swapcase() + s[k+1:], s + " ", " " + s, s[:-1], s[1:], s + s[-1], s + "_", "_" + s, s + "0", s.replace("_", ""), s.replace("_", "__"), s.replace("_", "-"), s + s, s[:k] + s[k+1:], s[::-1]])
    def arg_s(self):
        x = self.s()
        while x.startswith("@"): x = self.s()
        return x
    def color(self):
        if NUMS and self.p(.1):
            n = self.num() & 0xffffffff
            return str(n - 2**32 if n >= 2**31 else n)
        return str(self.one([-1, 0, 1, -16777216, 2147483647, -2147483648, -10701022, -16740915, 16777215, self.r.randint(-2**31, 2**31-1)]))
    def rng(self, lo, hi):
        if NUMS and self.p(.15):
            n = self.num() + self.one([0, 0, 1, -1])
            if lo <= n <= hi: return str(n)
        return str(self.one([lo, hi, 0 if lo <= 0 else lo, min(hi, lo+1 if lo > 0 else 1), self.r.randint(lo, hi), self.r.randint(max(lo, 0), min(hi, 60))]))
    def scalar(self, ty):
        if ty == "str": return self.s()
        if ty == "ostr": return self.one(["-", "=" + self.s(), "=" + self.ident(), "=" + self.one(["root","v1","v2","linear1"])])
        if ty in RANGES: return self.rng(*RANGES[ty])
        if ty == "f32": return self.one(["0","1","0.5","0.25","1.5","-2.75","100","0.125","-1","3.5"])
        if ty in ("b01", "bstr", "bool"): return self.one(["true","false"])
        if ty == "color": return self.color()
        if ty == "size": return self.one(["match","wrap","0","1","50","200","2147483647"])
        if ty == "scale": return self.one(list(SCALE))
        if ty == "nstr": return self.rng(0, 65535)
        if ty in ENUMS: return self.one(list(ENUMS[ty]))
        raise Exception(ty)

    # ------------------------------------------------------------ blocks
    def number(self):
        if NUMS and self.p(.05): return self.one(["", "", "-"]) + str(self.num() + self.one([0, 0, 1]))
        return self.one(["0","1","2","-1","0.5","10","255","-3.25","123456789","1.5","2147483648","0.1","1e300"]) if self.p(.8) else str(self.r.randint(-10**6, 10**6))
    def text_item(self):
        w = [self.word(TEXTWORDS) if TEXTWORDS and self.p(.08) else self.one(WORDS) for _ in range(self.one([1,1,1,2,3]))]
        return {"k":"text","nm":"","vk":"text","v":" ".join(w),"w":w,"b":[]}
    def arg_item(self, depth, k=None):
        k = k or self.one("sdbm")
        nm = self.idword(["inputOnly","myName","a.b","é"]) if k == "m" or self.p(.3) else ""
        it = {"k":k,"nm":nm,"vk":"val","v":"","w":[],"b":[]}
        c = self.r.random()
        if c < .15: it["vk"] = "empty"
        elif c < .5 and depth > 0:
            it["vk"] = "blk"
            it["b"] = [self.block(depth - 1, arg=k)]
        elif k in "sm": it["v"] = self.arg_s()
        elif k == "d": it["v"] = norm_f64(self.number())
        else: it["v"] = self.one(["true","false"])
        return it
    def items(self, depth, empty=False):
        out = []
        n = self.one([0,1,1,2,2,3,4])
        if self.p(.01): n, depth = self.one([6, 9, 10, 11, 14]), 0
        for _ in range(n):
            if self.p(.5): out.append(self.text_item())
            elif empty:
                k = self.one("sdbm")
                out.append({"k":k,"nm":self.ident() if k == "m" or self.p(.7) else "","vk":"empty","v":"","w":[],"b":[]})
            else: out.append(self.arg_item(depth))
        return out
    def block(self, depth, arg=None):
        if arg:
            kind = {"s":["String","String","Component","View","ListString"],"d":["Number","Number","ListNumber"],"b":["Boolean"],"m":["View","String","Component","ListString","ListNumber"]}[arg]
            kind = self.one(kind)
        else: kind = self.one(["Regular","Regular","Regular","OneNest","TwoNest","Ending","String","Boolean"])
        tn = self.idword(["TextView","Intent","","日本"]) if kind in ("View","Component") else ""
        op = self.word(OPWORDS) if OPWORDS and self.p(.1) else self.one(["setVar","if","ifElse","repeat","getVar","doToast","addSourceDirectly","é op","forever"])
        if kind == "Boolean" and self.p(.3): op = self.one(["true","false"])
        b = {"op":op,"color":self.color(),"kind":kind,"tn":tn,"items":self.items(depth),"ss1":[],"ss2":[]}
        # a block called "true" or "false" below a boolean argument is the literal itself
        if op in ("true","false"): b["items"] = [{"k":"text","nm":"","vk":"text","v":op,"w":[op],"b":[]}]; b["color"] = "-10701022"
        elif depth > 0:
            if kind in ("OneNest","TwoNest") or self.p(.1):
                if self.p(.8): b["ss1"] = self.forest(depth - 1, 3)
            if kind == "TwoNest" or self.p(.05):
                if self.p(.8): b["ss2"] = self.forest(depth - 1, 3)
        if self.p(.1): b["some"] = "1"
        return b
    def forest(self, depth=3, width=4):
        if self.p(.008): depth, width = 0, self.one([6, 9, 10, 11, 17, 33])
        return [self.block(depth) for _ in range(self.r.randint(0, width))]

    # ------------------------------------------------------------ views
    def raw(self, id_=None, kind=None):
        v = {k: self.scalar(t) for k, t in VIEW_TYPES.items()}
        v["id"] = id_ or self.uid()
        code = kind if kind is not None else self.one(list(VIEW_CODES.values()) + [2, 12])
        v["type"] = str(code)
        if code in (6, 16) and v["image.resName"] == "-": v["image.resName"] = "=" + self.one(["img","","日本"])
        return v
    def kind(self, name=None):
        name = name or self.one(list(KIND_FIELDS))
        f = {k: self.scalar(VIEW_TYPES[p]) for k, p in KIND_FIELDS[name].items()}
        if "resName" in f: f["resName"] = self.one(["img","","icon_1","日本"])
        if name == "ScrollView": f["orientation"] = self.one(["Horizontal","Vertical"])
        if not f: f = {"_": ""}
        return {"k": name, "f": f}
    def view(self, depth=0, width=3, id_=None, agree=True):
        """a view whose typed fields may differ from its raw ones (edited) or agree with them"""
        raw = self.raw(id_)
        v = view_of(raw)
        if not agree:
            for k in COMMON:
                if k != "id" and self.p(.4): v[k] = self.scalar(VIEW_TYPES[COMMON[k]])
            if self.p(.6): v["kind"] = self.kind()
        if depth > 0: v["kids"] = [self.view(depth - 1, width, agree=agree) for _ in range(self.r.randint(0, width))]
        return v
    def tree(self, depth=3, width=3, agree=True):
        if self.p(.01): return [self.view(0, 0, agree=agree) for _ in range(self.one([9, 10, 11, 12]))]
        if self.p(.01):
            v = self.view(0, 0, agree=agree)
            for _ in range(self.one([6, 9, 11])):
                w = self.view(0, 0, agree=agree)
                w["kids"] = [v] + ([self.view(0, 0, agree=agree)] if self.p(.3) else [])
                v = w
            return [v]
        return [self.view(depth - 1, width, agree=agree) for _ in range(self.r.randint(0, width))]
    def flat_of(self, tree):
        """rows of a layout file in one of the orders a file may have: parents first"""
        rows, todo = [], [(v, "root", "0") for v in tree]
        while todo:
            i = self.r.choice([0, len(todo) - 1, self.r.randrange(len(todo))]) if False else 0
            v, p, pt = todo.pop(i)
            r = dict(v["raw"]); r["parent"] = "=" + p; r["parentType"] = pt
            rows.append(r)
            kids = [(c, v["id"], v["raw"]["type"]) for c in v["kids"]]
            todo = (kids + todo) if self.p(.5) else (todo + kids)
        return rows

    # ------------------------------------------------------------ data-file models
    def m_project(self):
        days = self.one([0, 1, 18262, 19000, 11016, 59, 60, 364, 365, 2932896, self.r.randint(0, 2932896)])
        return {"id":self.rng(0,65535),"appName":self.s(),"wsName":self.s(),"pkgName":self.s(),"verCode":self.rng(0,65535),"verName":self.s(),"days":str(days),
                "secs":str(self.one([0, 1, 86399, 3661, 36000, self.r.randint(0, 86399)])),"customIcon":self.one(["true","false"]),
                "cPrimary":self.color(),"cPrimaryDark":self.color(),"cAccent":self.color(),"cNormal":self.color(),"cHighlight":self.color(),"swVer":self.rng(0,255)}
    def file_item(self):
        return {"name":self.s(),"ftype":self.scalar("ftype"),"kbd":self.scalar("kbd"),"toolbar":self.scalar("bool"),"fullscreen":self.scalar("bool"),"drawer":self.scalar("bool"),"fab":self.scalar("bool"),"orientation":self.scalar("fori"),"theme":self.scalar("theme")}
    def many(self, f, hi=4):
        n = self.r.randint(0, hi)
        if self.p(.012): n = self.one([10, 11, 16, 17, 20, 33])
        l = [f() for _ in range(n)]
        # the same thing twice
        if l and self.p(.12):
            k = self.r.randrange(len(l))
            l.insert(self.one([k, k + 1, len(l), 0]), json.loads(json.dumps(l[k])))
        return l
    def m_file(self): return {"activities":self.many(self.file_item),"customViews":self.many(self.file_item)}
    def res_item(self): return {"fullName":self.s(),"name":self.s(),"type":self.rng(0,255)}
    def m_resource(self): return {"images":self.many(self.res_item),"sounds":self.many(self.res_item),"fonts":self.many(self.res_item)}
    def lib_item(self, t):
        return {"adUnits":self.many(lambda: {"id":self.s(),"name":self.s()}, 2),"data":self.s(),"libType":self.one([t, self.rng(0,255)]),"reserved1":self.s(),"reserved2":self.s(),"reserved3":self.s(),"testDevices":self.many(self.s, 2),"useYn":self.one(["Y","N","",self.s()])}
    def m_library(self): return {"firebaseDB":self.lib_item("0"),"compat":self.lib_item("1"),"admob":self.lib_item("2"),"googleMap":self.lib_item("3")}
    def some(self, hi): return self.one([5, 9, 10, 11, 12]) if self.p(.015) else self.r.randint(0, hi)
    def names(self, n, pool=None):
        pool = pool or ["main","second","a_b","debug_screen","x","view","func","screen2","my_long_name_3","java","é","日本","list_item","var","a b","a:b","@x"]
        return self.r.sample(pool, min(n, len(pool)))
    def m_view(self):
        lay = self.names(self.some(3))
        fab = self.names(self.some(3))
        def row():
            v = self.raw(self.one([self.uid(), "linear1", "a b", ""]), kind=self.one([0, 3, 4, 19, 36, 100, 255]))
            v["type"] = self.rng(0, 255)
            v["parent"] = self.scalar("ostr")
            return v
        return {"layouts":[{"name":n,"views":self.many(row, 3)} for n in lay],"fabs":[{"name":n,"view":row()} for n in fab]}
    def p_block(self):
        words = [self.one(WORDS + ["%s","%d","%b","%m.list","%s.name"]) for _ in range(self.some(4))] or [""]
        b = {"color":self.color(),"id":self.one([str(self.r.randint(0, 40)), "0", "2147483647", "2147483648", "4294967295", "4294967296", "x", ""]),"next":self.one([-1, -1, 5, 0, 2147483647, -2147483648]),"op":self.s(),
             "params":[{"s":self.s()} for _ in range(self.some(3))],"spec":" ".join(words) if self.p(.8) else self.s(),"ss1":self.one([-1, 3]),"ss2":self.one([-1, 0]),"type":self.one([" ","b","c","f","s","l","zz",""]),"tn":self.one(["","View","List String"])}
        return b
    def line_s(self):
        """text that stands in a line of its own"""
        x = self.s()
        while "\n" in x or "\r" in x: x = self.s()
        return x
    def pool(self, f, keys=None):
        if self.p(.3): return {"some":"0","l":[]}
        l = self.many(f, 3)
        if keys:
            seen, u = set(), []
            for x in l:
                if len(l) > 4 and x[keys] in seen: x[keys] = x["own"] = x[keys] + self.uid("")
                if x[keys] not in seen: seen.add(x[keys]); u.append(x)
            l = u
        return {"some":"1","l":l}
    def name_s(self):
        return self.idword(["a","myVar","x1","ünï","名前","a b","a:b"," x","x ","y\t","@x","0","{}"] + [self.ident()])
    def var(self):
        n = self.name_s()
        if self.p(.05): n = self.near(n)
        return {"name":n,"own":n,"type":self.one(VARTYPES)}
    def p_comp(self): return {"id":self.s(),"p1":self.s(),"p2":self.s(),"p3":self.s(),"type":self.rng(0,255)}
    def p_event(self): return {"name":self.s(),"etype":self.rng(0,255),"target":self.s(),"ttype":self.rng(0,255)}
    def p_mb(self):
        i = self.one(["", "", "", " "]) + self.idword(["mb","foo","a_b","名前","x1","F"]) + self.one(["", "2"])
        w = [self.one(WORDS + ["%s.name","%b","%d.n","%m.view"]) for _ in range(self.r.randint(0, 4))] or [""]
        return {"id":i,"own":i,"spec":" ".join(w),"words":w}
    def m_logic(self):
        scr = []
        for n in self.names(self.some(3), ["MainActivity","SecondActivity","A","x.y","é","日本Activity","java_","Main","B","C1","b","Z","ThirdActivity","x"]):
            conts = [{"id":c,"flat":[self.p_block() for _ in range(self.some(3))]} for c in self.names(self.some(3), ["onCreate_initializeLogic","button1_onClick","foo_moreBlock","x","a.b","vars","event","名前_onClick","b_onClick","button10_onClick","z","y_y","components2"])]
            s = {"name":n,"own":n,"conts":conts,"vars":self.pool(self.var,"name"),"lists":self.pool(self.var,"name"),"comps":self.pool(self.p_comp),"events":self.pool(self.p_event),"mbs":self.pool(self.p_mb,"id")}
            # a screen without any section leaves no mark in the file
            if not conts and all(s[k]["some"] == "0" for k in ("vars","lists","comps","events","mbs")): s["vars"] = {"some":"1","l":[]}
            scr.append(s)
        return {"screens":scr}
    def model(self, kind): return getattr(self, "m_" + kind)()

def norm_f64(s):
    """the text of the f64 a decimal text stands for, in the notation of Rust's Display"""
    t = format(Decimal(repr(float(s))), "f")
    return t.rstrip("0").rstrip(".") if "." in t else t

def kind_of(raw):
    t = raw["type"]
    if t in ("2", "12"): return {"k":"ScrollView","f":{"gravity":raw["layout.gravity"],"orientation":"Horizontal" if t == "2" else "Vertical"}}
    if t not in CODE_VIEWS: return {"k":"Err","f":{"_":""}}
    n = CODE_VIEWS[t]
    if n in ("ImageView","Fab") and raw["image.resName"] == "-": return {"k":"Err","f":{"_":""}}
    f = {k: (raw[p][1:] if p == "image.resName" else raw[p]) for k, p in KIND_FIELDS[n].items()} or {"_":""}
    return {"k":n,"f":f}
def view_of(raw):
    v = {k: raw[p] for k, p in COMMON.items()}
    v.update(kind=kind_of(raw), kids=[], raw=raw)
    return v

# ---------------------------------------------------------------- text of data files
class Text:
    """writes models as text the way a data file may look: key order, escapes and number notation vary"""
    def __init__(self, g): self.g, self.r = g, g.r
    def js(self, d):
        items = list(d.items())
        if self.g.p(.5): self.r.shuffle(items)
        return json.dumps(dict(items), ensure_ascii=self.g.p(.3), separators=self.g.one([(",", ":"), (", ", ": ")]))
    def val(self, ty, v):
        if ty in ("str","nstr","bstr"): return v
        if ty in RANGES: return int(v)
        if ty == "color": return float(v) if self.g.p(.1) and abs(int(v)) < 2**31 else int(v)
        if ty == "f32": return float(v) if ("." in v or self.g.p(.5)) else int(v)
        if ty == "b01": return 1 if v == "true" else 0
        if ty == "bool": return v == "true"
        if ty == "size": return {"match":-2,"wrap":-1}.get(v) if v in ("match","wrap") else int(v)
        if ty == "scale": return SCALE[v]
        if ty in ENUMS: return ENUMS[ty][v]
        raise Exception(ty)
    def view(self, v):
        d = {}
        for k, ty in VIEW_TYPES.items():
            if ty == "ostr":
                if v[k] == "-":
                    if self.g.p(.2): x = None
                    else: continue
                else: x = v[k][1:]
            else: x = self.val(ty, v[k])
            if "." in k:
                a, b = k.split("."); d.setdefault(a, {})[b] = x
            else: d[k] = x
        for a in ("image","layout","text"): d.setdefault(a, {})
        return self.js(d)
    def project(self, m):
        d = {"custom_icon":m["customIcon"] == "true","sc_ver_code":m["verCode"],"my_ws_name":m["wsName"],"color_accent":0,"my_app_name":m["appName"],"sc_ver_name":m["verName"],"sc_id":m["id"],
             "color_primary":0,"color_control_highlight":0,"color_control_normal":0,"my_sc_reg_dt":date(int(m["days"]), int(m["secs"])),"sketchware_ver":int(m["swVer"]),"my_sc_pkg_name":m["pkgName"],"color_primary_dark":0}
        for k, c in (("color_primary","cPrimary"),("color_primary_dark","cPrimaryDark"),("color_accent","cAccent"),("color_control_normal","cNormal"),("color_control_highlight","cHighlight")): d[k] = self.val("color", m[c])
        return self.js(d)
    def file_line(self, f):
        o = (f["toolbar"] == "true") + 2 * (f["fullscreen"] == "true") + 4 * (f["drawer"] == "true") + 8 * (f["fab"] == "true")
        return self.js({"fileName":f["name"],"fileType":ENUMS["ftype"][f["ftype"]],"keyboardSetting":ENUMS["kbd"][f["kbd"]],"options":o,"orientation":ENUMS["fori"][f["orientation"]],"theme":ENUMS["theme"][f["theme"]]})
    def res_line(self, r): return self.js({"resFullName":r["fullName"],"resName":r["name"],"resType":int(r["type"])})
    def lib_line(self, l):
        return self.js({"adUnits":[{"id":a["id"],"name":a["name"]} for a in l["adUnits"]],"data":l["data"],"libType":int(l["libType"]),"reserved1":l["reserved1"],"reserved2":l["reserved2"],"reserved3":l["reserved3"],"testDevices":l["testDevices"],"useYn":l["useYn"]})
    def block_line(self, b):
        return self.js({"color":int(b["color"]),"id":b["id"],"nextBlock":b["next"],"opCode":b["op"],"parameters":[p["s"] for p in b["params"]],"spec":b["spec"],"subStack1":b["ss1"],"subStack2":b["ss2"],"type":b["type"],"typeName":b["tn"]})
    def comp_line(self, c): return self.js({"componentId":c["id"],"param1":c["p1"],"param2":c["p2"],"param3":c["p3"],"type":int(c["type"])})
    def event_line(self, e): return self.js({"eventName":e["name"],"eventType":int(e["etype"]),"targetId":e["target"],"targetType":int(e["ttype"])})
    def blanks(self, lo=0): return [""] * self.g.one([lo, lo, lo, lo + 1, lo + 2])
    def sections(self, secs, body):
        """fixed sections: blank lines may stand anywhere, sections may be split or come in any order"""
        out = []
        secs = list(secs)
        if self.g.p(.3): self.r.shuffle(secs)
        for h, items in secs:
            out += self.blanks()
            if not items and self.g.p(.2): continue
            out.append("@" + h)
            for i in items:
                out += self.blanks() if self.g.p(.1) else []
                out.append(body(i))
        return out + self.blanks()
    def file(self, m): return "\n".join(self.sections([("activity", m["activities"]), ("customview", m["customViews"])], self.file_line))
    def resource(self, m): return "\n".join(self.sections([("images", m["images"]), ("sounds", m["sounds"]), ("fonts", m["fonts"])], self.res_line))
    def library(self, m):
        secs = [("firebaseDB", m["firebaseDB"]), ("compat", m["compat"]), ("admob", m["admob"]), ("googleMap", m["googleMap"])]
        if self.g.p(.3): self.r.shuffle(secs)
        out = []
        for h, l in secs: out += self.blanks() + ["@" + h, self.lib_line(l)]
        return "\n".join(out + self.blanks())
    def view_doc(self, m):
        parts = [["@" + l["name"] + ".xml"] + [self.view(v) for v in l["views"]] + [""] for l in m["layouts"]] 
        fabs = [["@" + f["name"] + ".xml_fab", self.view(f["view"])] for f in m["fabs"]]
        if self.g.p(.4):
            # layouts and fabs interleaved
            merged = []
            a, b = list(parts), list(fabs)
            while a or b: merged.append((a if (a and (not b or self.g.p(.5))) else b).pop(0))
            parts = merged
        else: parts = parts + fabs
        out = self.blanks()
        for x in parts: out += x + self.blanks()
        return "\n".join(out)
    def logic(self, m):
        secs = []
        for s in m["screens"]:
            n = s["name"]
            def sec(h, l): secs.append(["@" + n + "." + h] + l)
            if s["vars"]["some"] == "1": sec("java_var", [f"{VARTYPES.index(v['type'])}:{v['name']}" for v in s["vars"]["l"]])
            if s["lists"]["some"] == "1": sec("java_list", [f"{VARTYPES.index(v['type'])}:{v['name']}" for v in s["lists"]["l"]])
            if s["comps"]["some"] == "1": sec("java_components", [self.comp_line(c) for c in s["comps"]["l"]])
            if s["events"]["some"] == "1": sec("java_events", [self.event_line(e) for e in s["events"]["l"]])
            if s["mbs"]["some"] == "1": sec("java_func", [f"{b['id']}:{b['spec']}" for b in s["mbs"]["l"]])
            for c in s["conts"]: sec("java_" + c["id"], [self.block_line(b) for b in c["flat"]])
        if self.g.p(.4):
            # any order that keeps the containers of a screen in order
            conts = [x for x in secs]
            key = {id(x): i for i, x in enumerate(conts)}
            order = sorted(conts, key=lambda x: (self.r.random()))
            # containers of one screen must stay in order: stable by their position within the screen
            per = {}
            for x in conts: per.setdefault(x[0].split(".java_")[0], []).append(x)
            it = {k: iter(v) for k, v in per.items()}
            secs = [next(it[x[0].split(".java_")[0]]) for x in order]
        out = self.blanks()
        for x in secs: out += x + self.blanks(1)
        return "\n".join(out)
    def doc(self, kind, m): return self.view_doc(m) if kind == "view" else getattr(self, kind)(m)

def date(days, secs):
    import datetime
    d = datetime.date(1970, 1, 1) + datetime.timedelta(days=days)
    return f"{d.year:04}{d.month:02}{d.day:02}{secs//3600:02}{secs//60%60:02}{secs%60:02}"

# ---------------------------------------------------------------- flat block lists
def words_of(items):
    w = []
    for i in items: w += i["w"] if i["k"] == "text" else ["%" + i["k"] + ("." + i["nm"] if i["nm"] else "")]
    return w or [""]
class Enc:
    """flat lists with ids and order of our own choosing"""
    def __init__(self, g): self.g = g
    def list(self, forest, shuffle=True):
        self.rows, self.ids = [], []
        n = self.count(forest)
        pool = list(range(10, 10 + n)) if self.g.p(.4) else self.g.r.sample(range(0, 5 * n + 5), n)
        if n and self.g.p(.2): pool[self.g.r.randrange(n)] = 2147483647
        self.pool = pool
        if self.g.p(.5) and shuffle: self.g.r.shuffle(self.pool)
        self.far = self.g.r.sample([2147483648, 2147483649, 3000000000, 4294967294, 4294967295], 3) if self.g.p(.25) else []
        self.chain(forest)
        if self.far and self.rows: self.rows[0]["id"] = str(self.far.pop())       # no pointer leads to the first
        if shuffle and self.rows and self.g.p(.5):
            rest = self.rows[1:]; self.g.r.shuffle(rest); self.rows = self.rows[:1] + rest
        return self.rows
    def count(self, f):
        c = 0
        for b in f:
            c += 1 + self.count(b["ss1"]) + self.count(b["ss2"])
            for i in b["items"]:
                if i["vk"] == "blk": c += self.count(i["b"])
                elif i["k"] == "b" and i["vk"] == "val": c += 1
        return c
    def chain(self, f):
        rows = [self.block(b) for b in f]
        for a, b in zip(rows, rows[1:]): a["next"] = int(b["id"])
        return int(rows[0]["id"]) if rows else -1
    def arg(self, b):
        """a block used as an argument is found by any id of 32 bits"""
        row = self.block(b)
        if self.far and self.g.p(.3): row["id"] = str(self.far.pop())
        return row["id"]
    def block(self, b):
        row = {"color":b["color"],"id":str(self.pool.pop(0)),"next":-1,"op":b["op"],"params":[],"spec":" ".join(words_of(b["items"])),"ss1":-1,"ss2":-1,"type":BLOCK_LETTER[b["kind"]],
               "tn":{"ListString":"List String","ListNumber":"List Number"}.get(b["kind"], b["tn"])}
        self.rows.append(row)
        for i in b["items"]:
            if i["k"] == "text": continue
            if i["vk"] == "blk": row["params"].append({"s":"@" + self.arg(i["b"][0])})
            elif i["k"] == "b" and i["vk"] == "val":
                # a literal is stored as its own block, or as plain text
                if self.g.p(.5):
                    lit = {"op":i["v"],"color":"-10701022","kind":"Boolean","tn":"","items":[{"k":"text","nm":"","vk":"text","v":i["v"],"w":[i["v"]],"b":[]}],"ss1":[],"ss2":[]}
                    row["params"].append({"s":"@" + self.arg(lit)})
                else: row["params"].append({"s":i["v"]})
            else: row["params"].append({"s":i["v"]})
        if b["ss1"]: row["ss1"] = self.chain(b["ss1"])
        if b["ss2"]: row["ss2"] = self.chain(b["ss2"])
        return row

if __name__ == "__main__": json.dump({"words":MINED,"nums":NUMS}, open(KNOWN_FILE, "w", encoding="utf-8"), ensure_ascii=False, indent=0)
