import json,ast,os,sys,re
M=json.load(open('/tmp/cov/map.json'))
for root,_,fs in os.walk('/repo/tensap'):
    for fn in sorted(fs):
        if not fn.endswith('.py'): continue
        path=os.path.join(root,fn); rel=path.replace('/repo/','')
        if any(k in rel for k in ('benchmark','custom_loss','feature_map')): continue
        src=open(path).read(); tree=ast.parse(src); L=src.splitlines()
        cov={int(k) for k in M.get(rel,{})}
        out=[]
        def walk(n,fname):
            for s in ast.iter_child_nodes(n):
                if isinstance(s,ast.FunctionDef):
                    if s.name.startswith('plot') or s.name in('__repr__','__str__') or 'display' in s.name: continue
                    if any('abstract' in ast.unparse(d) for d in s.decorator_list): continue
                    walk(s,s.name)
                elif isinstance(s,ast.ClassDef): walk(s,fname)
                elif isinstance(s,ast.stmt) and fname:
                    if s.lineno not in cov and not (isinstance(s,ast.Expr) and isinstance(s.value,ast.Constant)):
                        t=ast.unparse(s).split('\n')[0]
                        if not re.match(r'(raise|print|assert|import|warnings)',t): out.append((s.lineno,fname,t[:110]))
                        elif False: pass
                    else: walk(s,fname)
                elif isinstance(s,(ast.ExceptHandler,)) and fname: walk(s,fname)
        walk(tree,None)
        if out:
            print('##',rel)
            for l,f,t in out: print('  %d %s: %s'%(l,f,t))
