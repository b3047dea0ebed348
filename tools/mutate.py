#!/usr/bin/env python3
"""Development aid: mechanical mutants of the library, each built in a scratch copy and run through the simulator without
restricting the property. Reports mutants that nothing notices, for review.  mutate.py OUT.jsonl [file-substring] [seconds]"""
import os, re, sys, json, subprocess, shutil, hashlib, glob, random, threading, queue
VERIF=os.environ.get("MUT_VERIF","/verif"); SCR="/tmp/mut"
out=sys.argv[1]; sub=sys.argv[2] if len(sys.argv)>2 else ""; 
files=[f for f in sorted(glob.glob("/repo/src/*.c"))+["/repo/examples/ann/ann_wrapper.cpp"] if sub in f and "debug" not in f]
def muts(line):
    r=set()
    code=line.split("//")[0]
    st=code.strip()
    if not st or st.startswith(("#","*","/*","assert","static assert")) or "assert(" in code: return r
    tail=line[len(code):]
    def add(x):
        if x!=code: r.add(x+tail)
    for a,b in [("<=","<"),(">=",">"),("==","!="),("!=","=="),("&&","||"),("||","&&"),("true","false"),("false","true"),("+ 1","+ 0"),("- 1","- 0"),(" + "," - "),(" - "," + "),(" * "," + "),(" / "," * "),("++","--"),("--","++"),("+= ","-= "),("-= ","+= ")]:
        for m in re.finditer(re.escape(a),code):
            if a in("<=",">=") or True: add(code[:m.start()]+b+code[m.end():])
    for m in re.finditer(r"(?<![<>=\-])([<>])(?![<>=])",code):
        if "#include" in code or "->" in code[m.start()-1:m.end()+1]: continue
        add(code[:m.start()]+m.group(1)+"="+code[m.end():])
        add(code[:m.start()]+(">" if m.group(1)=="<" else "<")+code[m.end():])
    for m in re.finditer(r"!(?!=)",code): add(code[:m.start()]+code[m.end():])
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])",code):
        v=int(m.group(1)); 
        for w in {v+1,max(0,v-1)}-{v}: add(code[:m.start()]+str(w)+code[m.end():])
    m=re.match(r"(\s*)(\} else )?if \((.*)\) \{\s*$",code)
    if m:
        add(m.group(1)+(m.group(2) or "")+"if (0) {\n"); add(m.group(1)+(m.group(2) or "")+"if (1) {\n")
    if st.endswith(";") and not re.match(r"(const |size_t|uint|double|bool|int|scc_\w+(\*| \w+;)|iscc_\w+ |return|struct|static|extern|typedef|\})",st) and "for (" not in st and st.count("(")==st.count(")"):
        add(re.match(r"\s*",code).group(0)+";\n")
    if re.match(r"(break|continue);",st): add(re.match(r"\s*",code).group(0)+";\n")
    return r
PARTS=[("default","FUNC",2500),("default","FAULT",1500),("default","HIER",500),("default","HIFAULT",800),("default","BATCH",1000),("default","STATS",800),("default","LIFEFAULT",1200),("default","BAD",1500),("default","BACKEND",500),("default","SPI",500),("default","INTER",200),("tiny","CAP",800)]
ANN=[("ann","BACKEND",1500),("annint","BACKEND",1500),("ann","FAULT",500)]
def work():
    me=threading.get_ident(); d="%s/w%d"%(SCR,me); 
    while True:
        try: n,f,ln,new=q.get_nowait()
        except queue.Empty: return
        rp=d+"/repo"; 
        if not os.path.isdir(rp):
            os.makedirs(rp)
            for x in ("src","include","templates","examples","dist_info"):
                s="/repo/"+x
                if os.path.isdir(s): shutil.copytree(s,rp+"/"+x)
                elif os.path.exists(s): shutil.copy(s,rp+"/"+x)
        rel=f[len("/repo/"):]
        L=open(f).read().split("\n"); old=L[ln]; L[ln]=new.rstrip("\n"); open(rp+"/"+rel,"w").write("\n".join(L))
        env=dict(os.environ,SCC_REPO=rp,SCC_BUILD=d+"/build",SCC_OBJCACHE=SCR+"/objcache")
        parts=ANN if rel.endswith("cpp") else PARTS
        res={"file":rel,"line":ln+1,"old":old.strip(),"new":new.strip(),"caught":None}
        try:
            fl=sorted({p[0] for p in parts})
            b=subprocess.run(["python3",VERIF+"/simbuild.py"]+fl,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=300)
            if b.returncode!=0: res["caught"]="nobuild"
            else:
                for (x,p,c) in parts:
                    try:
                        o=subprocess.run([d+"/build/"+x+"/sim","run","--profile",p,"--seed0","7","--count",str(c),"--wd","10"],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors="replace",timeout=240)
                        if o.returncode!=0:
                            m=re.search(r'"tags":"([^"]*)".*"msg":"([^"]*)"',o.stdout)
                            res["caught"]=x+"/"+p; res["tags"]=m.group(1) if m else "crash%d"%o.returncode; res["msg"]=(m.group(2) if m else "")[:160]
                            break
                    except subprocess.TimeoutExpired: res["caught"]=x+"/"+p; res["tags"]="timeout"; break
        except Exception as e: res["caught"]="error "+str(e)[:100]
        shutil.copy(f,rp+"/"+rel)
        with lock: open(out,"a").write(json.dumps(res)+"\n")
q=queue.Queue(); lock=threading.Lock(); n=0; done=set()
if os.path.exists(out):
    for l in open(out): r=json.loads(l); done.add((r["file"],r["line"],r["new"]))
for f in files:
    for ln,line in enumerate(open(f).read().split("\n")):
        for new in sorted(muts(line+"\n")):
            if (f[6:],ln+1,new.strip()) in done: continue
            q.put((n,f,ln,new)); n+=1
print(n,"mutants",flush=True)
if os.environ.get("COUNT"): sys.exit()
shutil.rmtree(SCR,ignore_errors=True); os.makedirs(SCR)
ts=[threading.Thread(target=work) for _ in range(7)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(SCR,ignore_errors=True)
