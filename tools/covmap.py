import coverage, glob, os, json, ast
M={}
for f in sorted(glob.glob('/tmp/cov/C*.cov')):
    p=os.path.basename(f)[:3]
    d=coverage.CoverageData(f); d.read()
    for file in d.measured_files():
        for l in d.lines(file): M.setdefault(file.replace('/repo/',''),{}).setdefault(l,[]).append(p)
json.dump(M,open('/tmp/cov/map.json','w'))
# uncovered statement lines inside functions
for root,_,fs in os.walk('/repo/tensap'):
    for fn in sorted(fs):
        if not fn.endswith('.py'): continue
        path=os.path.join(root,fn); rel=path.replace('/repo/','')
        src=open(path).read(); tree=ast.parse(src); L=src.splitlines()
        miss=[]
        for n in ast.walk(tree):
            if isinstance(n,(ast.FunctionDef,)):
                for s in ast.walk(n):
                    if isinstance(s,ast.stmt) and not isinstance(s,(ast.FunctionDef,)) and not (isinstance(s,ast.Expr) and isinstance(getattr(s,'value',None),ast.Constant)):
                        if s.lineno not in M.get(rel,{}): miss.append((s.lineno,n.name))
        miss=sorted(set(miss))
        # group
        by={}
        for l,n in miss: by.setdefault(n,[]).append(l)
        if miss: print(rel,len(miss)); [print('   ',n,len(v),v[:8]) for n,v in by.items()]
