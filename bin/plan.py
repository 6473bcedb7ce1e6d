"""What each property's check explores and how much of it, per tier."""
import mc
from scripts import all_codes

def X(module, script, sample=10**9, constants=None, inputs=None, lexed=None, **k):
    return {"module":module,"script":script,"sample":sample,"constants":constants or {},"inputs":inputs or {},"lexed":lexed or {},**k}

def blocks(n, sample, conv): return X("MC_Block", conv, sample, {"MaxBlocks":n})
def flat(n, sample): return X("MC_Flat", lambda r, p, s: mc.from_flat(r), sample, {"Rows":n})
def views(n, sample, values): return X("MC_Views", lambda r, p, s: mc.from_views(r, values), sample, {"Depth":n}, {"TEMPLATES":mc.templates})
def docs(n, sample, pieces=False):
    al = mc.alphabet_pieces() if pieces else mc.alphabet()
    return X("MC_Docs", lambda r, p, s: mc.from_docs(r, al), sample, {"Depth":n}, lexed={"ALPHABET":[(k, s) for k in al for s in al[k]]})
def res(n, sample): return X("MC_Res", lambda r, p, s: mc.from_res(r), sample, {"Depth":n})
def crypt(n, sample): return X("MC_Crypt", lambda r, p, s: mc.from_crypt(r, mc.G(f"{s}/crypt")), sample, {"MaxLen":n})
def codes(last, step, dates): return X("MC_Codes", (lambda r, p, s: mc.from_dates(r)) if dates else (lambda r, p, s: []), 10**9, {"LastDay":last,"Step":step})
def proj(prop, n, sample): return X("MC_Proj", lambda r, p, s: mc.from_proj(r, prop), sample, {"Depth":n}, {"EDITS":lambda: mc.edits_for(prop),"START":mc.starts})

def content(n, sample): return X("MC_Content", lambda r, p, s: mc.from_content(r), sample, {"Depth":n})
def match(sample): return X("MC_Match", lambda r, p, s: mc.from_match(r), sample, {"Orders":2}, lexed={"PARTS":mc.match_parts()})
def conts(sample, single): return X("MC_Conts", lambda r, p, s: mc.from_conts(r), sample, {"Orders":2,"Single":single}, lexed={"PARTS":mc.conts_parts()})
def route(n, sample): return X("MC_Route", lambda r, p, s: mc.from_route(r), sample, {"Odd":n}, lexed={"PARTS":mc.route_parts()})

def make(n, sample): return X("MC_Make", lambda r, p, s: mc.from_make(r), sample, {"Depth":n})
def libs(): return X("MC_Libs", lambda r, p, s: mc.from_libs(r))

enc = lambda r, p, s: mc.from_block_enc(r)
dec = lambda r, p, s: mc.from_block_dec(r, s)

def plan(prop, tier):
    q = tier == "quick"
    pick = lambda a, b: a if q else b
    E, n = {
     "C01": ([proj("C01", pick(2, 3), pick(250, 5000))], pick(300, 4000)),
     "C02": ([docs(3, pick(2500, 10**9))], pick(900, 6000)),
     "C03": ([docs(3, pick(4000, 10**9))], pick(900, 6000)),
     "C04": ([blocks(pick(3, 4), pick(10**9, 6000), enc)], pick(1000, 12000)),
     "C05": ([flat(2, 10**9), blocks(pick(3, 4), pick(10**9, 4000), dec)], pick(900, 9000)),
     "C06": ([content(pick(2, 3), pick(2500, 40000))], pick(1500, 12000)),
     "C07": ([views(pick(3, 4), pick(10**9, 6000), False)], pick(600, 8000)),
     "C08": ([views(3, 10**9, True), proj("C08", pick(2, 3), pick(80, 2000))], pick(500, 6000)),
     "C09": ([conts(pick(400, 12000), pick("FALSE", "TRUE")), proj("C09", pick(2, 3), pick(250, 4000))], pick(500, 4000)),
     "C10": ([res(3, pick(1500, 10**9))], pick(1500, 15000)),
     "C11": ([proj("C11", pick(2, 3), pick(200, 3000)), res(2, 10**9)], pick(500, 4000)),
     "C12": ([crypt(pick(33, 65), 10**9)], pick(150, 1200)),
     "C13": ([docs(3, pick(2500, 10**9)), flat(2, 10**9)], pick(1000, 9000)),
     "C14": ([codes(100, 1, False)], pick(300, 4000)),
     "C15": ([codes(pick(20000, 400000), pick(7, 1), True)], pick(500, 5000)),
     "C16": ([libs(), proj("C16", pick(2, 3), pick(300, 4000))], pick(700, 5000)),
     "C17": ([route(pick(2, 3), pick(250, 4000))], pick(300, 4000)),
     "C18": ([match(pick(250, 10**9)), proj("C18", pick(2, 3), pick(150, 4000))], pick(300, 4000)),
     "C19": ([proj("C19", pick(2, 3), pick(150, 3000))], pick(250, 3000)),
     "C20": ([proj("C20", pick(2, 3), pick(150, 3000))], pick(300, 4000)),
     "C22": ([docs(3, pick(2000, 10**9)), docs(3, pick(1500, 10**9), True), flat(2, 10**9), content(pick(2, 3), pick(600, 10000))], pick(700, 7000)),
     "C23": ([make(pick(4, 5), pick(1500, 30000))], pick(400, 5000)),
     "C21": ([docs(pick(3, 4), pick(3000, 60000), True)], pick(600, 6000)),
    }[prop]
    return {"explore":E,"random":n,"timeout":pick(700, 7000)}
