"""Compact printing of terms and traces, for development."""
def T(t):
    if isinstance(t,tuple) and t and isinstance(t[0],tuple): return "("+",".join(map(T,t))+")"
    if not isinstance(t, tuple): return str(t)
    if not t: return "()"
    k=t[0]
    if k=="int": return str(t[1])
    if k=="str": return repr(t[1])
    if k=="sym": return f"{t[1]}#{t[2]}"
    if k=="init": return "*"+T(t[1][1]) if t[1][0]=="P" else "init"+str(t[1])
    if k=="fld": return f"{T(t[1])}.{t[2]}"
    if k=="rec": return (T(t[1])+"+" if t[1] else "")+str(t[3] or t[2] or '').split("::")[-1]+"{"+", ".join(f"{n}:{T(v)}" for n,v in t[4])+"}"
    if k=="ref": return "&"+P(t[1])
    if k=="call": return f"{str(t[2]).split('::')[-1]}@{t[1]}("+",".join(map(T,t[3]))+")"
    if k=="pure": return f"{str(t[1]).split('::')[-1]}<{','.join(t[3])}>("+",".join(map(T,t[2]))+")"
    if k=="op": return f"({T(t[2])} {t[1]} {T(t[3])})"
    if k=="fn": return "fn:"+t[1].split("::")[-1]
    if k=="closure": return "closure["+",".join(map(T,t[3]))+"]"
    if k=="constant": return "const:"+t[1]
    return k+"("+",".join(T(x) for x in t[1:])+")"
def P(p):
    r,proj=p
    s=("*"+T(r[1])) if r[0]=="P" else "_"+".".join(map(str,r[1:]))
    for e in proj: s+="."+str(e[1])
    return s
def E(e):
    k,f=e
    if k=="call": return f"call {f['def_'] or '?'}({', '.join(map(T,f['args']))}) -> {T(f['result'])}"
    if k=="store": return f"store {P(f['place'])} = {T(f['value'])}"
    if k=="drop": return f"drop {P(f['place'])}: {f['ty']}"
    if k=="assert": return f"assert {f['msg']} {f.get('op')} {[T(o) for o in f['ops']]}"
    return k+" "+str({a:b for a,b in f.items() if a!='f'})[:200]
def trace(st,k,v,conds=True):
    print(" *",k,T(v) if v else v)
    if conds: print("    if"," & ".join(f"{T(c[0])}={c[1]}" for c in st.conds))
    for e in st.events: print("     ",E(e))
