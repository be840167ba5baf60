#!/usr/bin/env python3
"""mutall.py FILE(rel) [--workers n] [--limit k]: ast mutants; proof-only; prints survivors and undecided-only"""
import ast,copy,sys,os,subprocess,json,shutil,concurrent.futures as cf,random
MAP={'resource/kernel/Gaussian_random_walk.py':['C01','C04','C05','C19'],'resource/kernel/MALA.py':['C01','C04','C05','C19'],
'resource/kernel/HMC.py':['C02','C04','C05','C19'],'resource/kernel/NF_proposal.py':['C03','C04','C05','C19'],
'strategy/take_steps.py':['C06','C07','C04','C19','C08'],'strategy/parallel_tempering.py':['C09','C10','C19'],
'strategy/train_model.py':['C16','C19'],'strategy/optimization.py':['C17','C19'],'strategy/update_state.py':['C20'],'strategy/lambda_function.py':['C20'],
'resource/states.py':['C20','C18'],'resource/buffers.py':['C20','C18'],'resource/logPDF.py':['C21'],
'resource/optimizer.py':['C15','C18','C08'],'resource/model/common.py':['C12','C13','C14','C19','C24','C25'],
'resource/model/nf_model/base.py':['C15','C13','C18','C19','C24'],'resource/model/nf_model/realNVP.py':['C12','C13','C19','C24','C25'],
'resource/model/nf_model/rqSpline.py':['C12','C13','C19','C24','C25'],'resource/model/flowmatching/base.py':['C14','C15','C19','C18','C24'],
'resource_strategy_bundle/RQSpline_MALA.py':['C08'],'resource_strategy_bundle/RQSpline_MALA_PT.py':['C08'],'Sampler.py':['C11']}
CMP={ast.Lt:ast.LtE,ast.LtE:ast.Lt,ast.Gt:ast.GtE,ast.GtE:ast.Gt,ast.Eq:ast.NotEq,ast.NotEq:ast.Eq}
BIN={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Div,ast.Div:ast.Mult,ast.FloorDiv:ast.Mult,ast.Mod:ast.FloorDiv,ast.Pow:ast.Mult}
def skip(node):  # annotations, docstrings, prints
    return False
def points(tree):
    """yield (description, mutated tree)"""
    nodes=list(ast.walk(tree))
    ann=set()
    for n in nodes:
        for a in ('annotation','returns'):
            x=getattr(n,a,None)
            if x is not None: ann|={id(y) for y in ast.walk(x)}
        if isinstance(n,ast.Call) and isinstance(n.func,ast.Name) and n.func.id in('print','ValueError','NotImplementedError'): ann|={id(y) for y in ast.walk(n)}
        if isinstance(n,ast.JoinedStr): ann|={id(y) for y in ast.walk(n)}
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): ann|={id(y) for y in ast.walk(n)}
        if isinstance(n,ast.Assert): ann|={id(y) for y in ast.walk(n)}
        if isinstance(n,ast.FunctionDef) and n.name in('__repr__','print_parameters'): ann|={id(y) for y in ast.walk(n)}
        if isinstance(n,ast.If) and 'verbose' in ast.unparse(n.test): ann|={id(y) for y in ast.walk(n)}
    idx={id(n):k for k,n in enumerate(nodes)}
    def mut(n,f):
        t=copy.deepcopy(tree)
        m=list(ast.walk(t))[idx[id(n)]]
        before=ast.unparse(t)
        f(m)
        ast.fix_missing_locations(t)
        try: after=ast.unparse(t)
        except Exception: return None
        return None if after==before else after
    for n in nodes:
        if id(n) in ann: continue
        L=getattr(n,'lineno',0)
        if isinstance(n,ast.Compare) and type(n.ops[0]) in CMP:
            yield L,'cmp',mut(n,lambda m:m.ops.__setitem__(0,CMP[type(m.ops[0])]()))
        if isinstance(n,ast.BinOp) and type(n.op) in BIN:
            yield L,'bin',mut(n,lambda m:setattr(m,'op',BIN[type(m.op)]()))
            yield L,'left',mut(n,lambda m:(setattr(m,'op',ast.Add()),setattr(m,'right',ast.Constant(0))))
        if isinstance(n,ast.AugAssign) and type(n.op) in BIN:
            yield L,'aug',mut(n,lambda m:setattr(m,'op',BIN[type(m.op)]()))
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.USub):
            yield L,'neg',mut(n,lambda m:setattr(m,'op',ast.UAdd()))
        if isinstance(n,ast.Constant) and isinstance(n.value,(int,float)) and not isinstance(n.value,bool):
            yield L,'const',mut(n,lambda m:setattr(m,'value',m.value+1))
            if n.value not in(0,): yield L,'const0',mut(n,lambda m:setattr(m,'value',type(m.value)(m.value-1)))
        if isinstance(n,ast.Constant) and isinstance(n.value,bool):
            yield L,'bool',mut(n,lambda m:setattr(m,'value',not m.value))
        if isinstance(n,ast.Call) and len(n.args)>=2:
            for k in range(len(n.args)-1):
                def f(m,k=k): m.args[k],m.args[k+1]=m.args[k+1],m.args[k]
                yield L,'swap',mut(n,f)
        if isinstance(n,ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                yield L,'dropkw',mut(n,lambda m,k=k:m.keywords.pop(k))
        if isinstance(n,ast.Call) and len(n.args)==1 and not n.keywords and not isinstance(n.func,ast.Attribute) is None:
            def f(m):
                a=m.args[0]; m.__class__=ast.BinOp; m.__dict__.clear(); m.left=a; m.op=ast.Add(); m.right=ast.Constant(0)
            if isinstance(n.func,ast.Attribute): yield L,'unwrap',mut(n,f)
        if isinstance(n,ast.Slice):
            if n.lower is not None: yield L,'lower',mut(n,lambda m:setattr(m,'lower',None))
            if n.upper is not None: yield L,'upper',mut(n,lambda m:setattr(m,'upper',None))
        if isinstance(n,(ast.If,ast.IfExp)):
            yield L,'if',mut(n,lambda m:setattr(m,'test',ast.UnaryOp(ast.Not(),m.test)))
        if isinstance(n,ast.Tuple) and isinstance(n.ctx,ast.Load) and 2<=len(n.elts)<=8:
            for k in range(len(n.elts)-1):
                def f(m,k=k): m.elts[k],m.elts[k+1]=m.elts[k+1],m.elts[k]
                yield L,'tup',mut(n,f)
        if isinstance(n,ast.FunctionDef) or isinstance(n,(ast.For,ast.If)):
            for k,s in enumerate(n.body):
                if isinstance(s,(ast.Assign,ast.AugAssign,ast.Expr)) and id(s) not in ann and not 'print(' in ast.unparse(s):
                    def f(m,k=k): m.body[k]=ast.Pass()
                    yield s.lineno,'del',mut(n,f)
        # name confusion: keys, and variables in the same function
        if isinstance(n,ast.FunctionDef):
            loads=[x for x in ast.walk(n) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Load) and id(x) not in ann]
            stores={x.id for x in ast.walk(n) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}|{a.arg for a in n.args.args}-{'self','cls'}
            rng=random.Random(n.name)
            for x in loads:
                if x.id not in stores: continue
                c=[y for y in stores if y!=x.id and (y[:3]==x.id[:3] or y.split('_')[-1]==x.id.split('_')[-1] or ('key' in y and 'key' in x.id))]
                for y in c[:2]:
                    yield x.lineno,'name %s->%s'%(x.id,y),mut(x,lambda m,y=y:setattr(m,'id',y))
def run(job):
    k,fn,L,d,src=job
    root='/tmp/w/mu/%s.%d'%(fn.replace('/','_'),k)
    shutil.rmtree(root,ignore_errors=True)
    shutil.copytree('/repo/src',root+'/src',ignore=shutil.ignore_patterns('__pycache__'))
    open(root+'/src/flowMC/'+fn,'w').write(src)
    und=[];res='SURVIVED'
    for c in MAP[fn]:
        out=root+'/%s.json'%c
        try: subprocess.run(['timeout','-k','5','150','python3-vt','-m','engine.runner',c,'--out',out],env=dict(os.environ,VERIF_REPO=root,PYTHONPATH='/verif',PYTHONDONTWRITEBYTECODE='1'),cwd='/verif',capture_output=True)
        except Exception: pass
        try: r=json.load(open(out))
        except Exception: und.append(c+':crash'); continue
        st=[o for o in r['obligations'] if o['status']=='refuted']
        if st: res='killed'; break
        u=[o for o in r['obligations'] if o['status']!='discharged']
        if u or r.get('error'): und.append(c+':'+(u[0]['id'] if u else r['error'][-80:])+' '+(u[0]['detail'][:90] if u else ''))
    shutil.rmtree(root,ignore_errors=True)
    return res,und
def main():
    fn=sys.argv[1]; W=int(sys.argv[sys.argv.index('--workers')+1]) if '--workers' in sys.argv else 4
    src=open('/repo/src/flowMC/'+fn).read(); tree=ast.parse(src)
    base=ast.unparse(tree).splitlines()
    jobs=[];seen=set()
    for L,d,m in points(tree):
        if m is None or m in seen: continue
        seen.add(m); jobs.append((len(jobs),fn,L,d,m))
    print(fn,len(jobs),'mutants',flush=True)
    nk=ne=0
    import difflib
    with cf.ThreadPoolExecutor(W) as ex:
        for j,(res,und) in zip(jobs,ex.map(run,jobs)):
            if res=='killed': nk+=1; continue
            if und and all(('PathError' in u or 'crash' in u) for u in und[:1]): ne+=1; continue
            df=[l for l in difflib.unified_diff(base,j[4].splitlines(),lineterm='',n=0) if l[0] in '+-' and l[:3] not in('+++','---')]
            print('UNDECIDED' if und else 'SURVIVED','L%d'%j[2],j[3],' | '.join(x.strip()[:140] for x in df[:4]),und[:2],flush=True)
    print('killed',nk,'raises',ne,'of',len(jobs))
main()
