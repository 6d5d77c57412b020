"""Parser for the textual LLVM 18 IR that clang emits from the real /repo headers.
Only the instruction forms that the verified functions use are understood; anything else
becomes Inst(op='?') and makes the symbolic executor stop with Unsupported when reached."""
import re

class Ty:
    __slots__=('k','a','b','name')
    def __init__(s,k,a=None,b=None,name=None): s.k=k;s.a=a;s.b=b;s.name=name
    def __repr__(s):
        if s.k=='int': return 'i%d'%s.a
        if s.k=='arr': return '[%d x %r]'%(s.a,s.b)
        if s.k=='struct': return s.name or '{%s}'%(','.join(map(repr,s.a)))
        return s.k

class ParseError(Exception): pass

TOK=re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>!(?:[-a-zA-Z$._0-9]*))
 |(?P<attr>\#[0-9]+)
 |(?P<num>-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?|0x[0-9A-Fa-f]+|-?[0-9]+)
 |(?P<dots>\.\.\.)
 |(?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 |(?P<p>[\[\](){}<>,=*:|])
)''',re.X)

def tokenize(s):
    out=[];i=0;n=len(s)
    while i<n:
        m=TOK.match(s,i)
        if not m or m.end()==i:
            if s[i:].strip()=='' : break
            raise ParseError('tok: '+s[i:i+60])
        k=m.lastgroup; out.append((k,m.group(k))); i=m.end()
    return out

def unq(x):
    if len(x)>2 and x[1]=='"': return x[0]+x[2:-1]
    return x

class TS:
    def __init__(s,toks,mod): s.t=toks;s.i=0;s.mod=mod
    def peek(s,o=0): return s.t[s.i+o] if s.i+o<len(s.t) else (None,None)
    def next(s):
        x=s.peek(); s.i+=1; return x
    def acc(s,v):
        if s.peek()[1]==v: s.i+=1; return True
        return False
    def exp(s,v):
        if not s.acc(v): raise ParseError('expected %s got %r in %r'%(v,s.peek(),s.t[max(0,s.i-4):s.i+6]))
    def ty(s):
        k,v=s.next()
        if k=='word':
            m=re.fullmatch(r'i(\d+)',v)
            if m: t=Ty('int',int(m.group(1)))
            elif v in('void','ptr','label','metadata','float','double','x86_fp80','token','half','opaque'): t=Ty(v)
            else: raise ParseError('type '+v)
        elif k=='loc': t=Ty('named',name=unq(v))
        elif v=='[':
            n=int(s.next()[1]); s.exp('x'); e=s.ty(); s.exp(']'); t=Ty('arr',n,e)
        elif v=='{':
            fs=[]
            if not s.acc('}'):
                while True:
                    fs.append(s.ty())
                    if s.acc('}'): break
                    s.exp(',')
            t=Ty('struct',fs)
        elif v=='<':
            if s.peek()[1]=='{':
                s.next(); fs=[]
                if not s.acc('}'):
                    while True:
                        fs.append(s.ty())
                        if s.acc('}'): break
                        s.exp(',')
                s.exp('>'); t=Ty('struct',fs,'packed')
            else:
                n=int(s.next()[1]); s.exp('x'); e=s.ty(); s.exp('>'); t=Ty('vec',n,e)
        else: raise ParseError('type %r'%(v,))
        while s.acc('*'): t=Ty('ptr')
        if s.peek()[1]=='(' and t.k!='ptr' and False: pass
        return t
    def skip_attrs(s):
        """parameter/return attributes"""
        while True:
            k,v=s.peek()
            if k=='word' and v in ATTRS:
                s.next()
                if v in('align',) :
                    if s.peek()[0]=='num': s.next()
                elif s.peek()[1]=='(' and v in PATTRS:
                    d=0
                    while True:
                        x=s.next()[1]
                        if x=='(': d+=1
                        if x==')':
                            d-=1
                            if d==0: break
            else: return
    def val(s,ty):
        k,v=s.next()
        if k=='loc': return ('loc',unq(v))
        if k=='glob': return ('glob',unq(v))
        if k=='num':
            if ty.k in('float','double','x86_fp80'): return ('fp',v)
            return ('int',int(v))
        if k=='word':
            if v in('true','false'): return ('int',1 if v=='true' else 0)
            if v in('null','undef','poison','zeroinitializer','none'): return (v,)
            if v in('getelementptr',):
                inb=s.acc('inbounds')
                while s.peek()[0]=='word' and s.peek()[1] in('nuw','nusw'): s.next()
                s.exp('('); bt=s.ty(); s.exp(','); s.ty(); p=s.val(Ty('ptr')); ix=[]
                while s.acc(','):
                    s.acc('inrange'); it=s.ty(); ix.append((it,s.val(it)))
                s.exp(')'); return ('cgep',bt,p,ix)
            if v in('ptrtoint','inttoptr','bitcast','trunc','zext','sext'):
                s.exp('('); t=s.ty(); x=s.val(t); s.exp('to'); t2=s.ty(); s.exp(')')
                return ('ccast',v,t,x,t2)
            if v in('sub','add','mul'):
                while s.peek()[0]=='word': s.next()
                s.exp('('); t=s.ty(); x=s.val(t); s.exp(','); t2=s.ty(); y=s.val(t2); s.exp(')')
                return ('cbin',v,t,x,y)
            if v=='splat': pass
        if v=='{' or v=='[' or v=='<':
            close={'{':'}','[':']','<':'>'}[v]; els=[]
            if not s.acc(close):
                while True:
                    t=s.ty(); els.append((t,s.val(t)))
                    if s.acc(close): break
                    s.exp(',')
            return ('agg',els)
        if k=='str': return ('str',v)
        if k=='meta': return ('meta',v)
        raise ParseError('value %r'%(v,))
    def tv(s):
        t=s.ty(); s.skip_attrs(); return t,s.val(t)

PATTRS={'dereferenceable','dereferenceable_or_null','sret','byval','memory','range','elementtype','captures','allocsize','vscale_range','inalloca','preallocated','byref'}
ATTRS={'noundef','nonnull','noalias','nocapture','readonly','writeonly','readnone','zeroext','signext','returned','align','immarg','noreturn','nofree','inreg','swiftself','nounwind','writable','dead_on_unwind','initializes','nest','allocptr','allocalign','dso_local','dso_local_equivalent'}|PATTRS

class Inst:
    __slots__=('op','res','ty','a','text','dbg')
    def __init__(s,op,res=None,ty=None,a=None,text=''): s.op=op;s.res=res;s.ty=ty;s.a=a;s.text=text;s.dbg=None
    def __repr__(s): return s.text.strip()
class Block:
    def __init__(s,name): s.name=name; s.phis=[]; s.insts=[]; s.term=None
class Func:
    def __init__(s,name): s.name=name; s.args=[]; s.blocks={}; s.order=[]; s.ret=None; s.entry=None
class Module:
    def __init__(s): s.types={}; s.funcs={}; s.decls={}; s.globals={}

    # ---- data layout
    def resolve(s,t):
        while t.k=='named':
            r=s.types.get(t.name)
            if r is None: raise ParseError('unknown type '+t.name)
            t=r
        return t
    def align(s,t):
        t=s.resolve(t)
        if t.k=='int': return min(8,max(1,(t.a+7)//8)) if t.a<=64 else 16
        if t.k in('ptr','double'): return 8
        if t.k=='float': return 4
        if t.k=='x86_fp80': return 16
        if t.k=='arr': return s.align(t.b)
        if t.k=='struct':
            if t.b=='packed': return 1
            return max([s.align(x) for x in t.a] or [1])
        if t.k=='vec': return s.size(t)
        raise ParseError('align %r'%t)
    def size(s,t):
        t=s.resolve(t)
        if t.k=='int':
            n=(t.a+7)//8
            for c in(1,2,4,8,16):
                if n<=c: return c
            return n
        if t.k in('ptr','double'): return 8
        if t.k=='float': return 4
        if t.k=='x86_fp80': return 16
        if t.k in('arr',): return t.a*s.size(t.b)
        if t.k=='vec': return t.a*s.size(t.b)
        if t.k=='struct':
            o=0;al=1
            for x in t.a:
                a=1 if t.b=='packed' else s.align(x); al=max(al,a); o=(o+a-1)//a*a; o+=s.size(x)
            return (o+al-1)//al*al
        raise ParseError('size %r'%t)
    def field(s,t,i):
        t=s.resolve(t); o=0
        for j,x in enumerate(t.a):
            a=1 if t.b=='packed' else s.align(x); o=(o+a-1)//a*a
            if j==i: return o,x
            o+=s.size(x)
        raise ParseError('field')

BIN={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
FBIN={'fadd','fsub','fmul','fdiv','frem','fneg','fcmp'}
CAST={'zext','sext','trunc','bitcast','ptrtoint','inttoptr','uitofp','sitofp','fptoui','fptosi','fpext','fptrunc','addrspacecast'}
FLAGS={'nuw','nsw','exact','inbounds','nneg','disjoint','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','nusw','samesign'}

def parse_call(ts,res,kind,text):
    while ts.peek()[0]=='word' and ts.peek()[1] in('fastcc','ccc','tail','musttail','notail','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','coldcc'): ts.next()
    ts.skip_attrs()
    rt=ts.ty()
    if ts.peek()[1]=='(':  # function type
        d=0
        while True:
            x=ts.next()[1]
            if x=='(': d+=1
            if x==')':
                d-=1
                if d==0: break
    callee=ts.val(Ty('ptr')); ts.exp('('); args=[]
    if not ts.acc(')'):
        while True:
            t=ts.ty()
            if t.k=='metadata':
                # skip metadata operand
                d=0
                while not (d==0 and ts.peek()[1] in(',',')')):
                    x=ts.next()[1]
                    if x in('(','{'): d+=1
                    if x in(')','}'): d-=1
                v=('meta','')
            else:
                ts.skip_attrs(); v=ts.val(t)
            args.append((t,v))
            if ts.acc(')'): break
            ts.exp(',')
    i=Inst('call',res,rt,dict(callee=callee,args=args),text)
    if kind=='invoke':
        while ts.peek()[0]=='attr' or (ts.peek()[0]=='word' and ts.peek()[1]!='to'): ts.next()
        ts.exp('to'); ts.exp('label'); n=unq(ts.next()[1]); ts.exp('unwind'); ts.exp('label'); u=unq(ts.next()[1])
        i.op='invoke'; i.a['normal']=n; i.a['unwind']=u
    return i

def parse_inst(line,mod):
    ts=TS(tokenize(line),mod); res=None
    if ts.peek()[0]=='loc' and ts.peek(1)[1]=='=':
        res=unq(ts.next()[1]); ts.next()
    k,op=ts.next()
    if op in('tail','musttail','notail'): k,op=ts.next()
    def flags():
        f=set()
        while ts.peek()[0]=='word' and ts.peek()[1] in FLAGS: f.add(ts.next()[1])
        return f
    if op in BIN:
        f=flags(); t=ts.ty(); x=ts.val(t); ts.exp(','); y=ts.val(t)
        return Inst(op,res,t,dict(x=x,y=y,f=f),line)
    if op in FBIN and op not in('fcmp','fneg'):
        f=flags(); t=ts.ty(); x=ts.val(t); ts.exp(','); y=ts.val(t)
        return Inst('fbin',res,t,dict(op=op,x=x,y=y),line)
    if op=='icmp':
        flags(); p=ts.next()[1]; t=ts.ty(); x=ts.val(t); ts.exp(','); y=ts.val(t)
        return Inst('icmp',res,Ty('int',1),dict(p=p,t=t,x=x,y=y),line)
    if op in CAST:
        f=flags(); t=ts.ty(); x=ts.val(t); ts.exp('to'); t2=ts.ty()
        return Inst(op,res,t2,dict(t=t,x=x),line)
    if op=='freeze':
        t=ts.ty(); return Inst('freeze',res,t,dict(x=ts.val(t)),line)
    if op=='select':
        flags(); ct=ts.ty(); c=ts.val(ct); ts.exp(','); t=ts.ty(); x=ts.val(t); ts.exp(','); ts.ty(); y=ts.val(t)
        return Inst('select',res,t,dict(c=c,x=x,y=y),line)
    if op=='getelementptr':
        f=flags(); bt=ts.ty(); ts.exp(','); pt=ts.ty(); p=ts.val(pt); ix=[]
        while ts.acc(','):
            if ts.peek()[0]=='meta': break
            it=ts.ty(); ix.append((it,ts.val(it)))
        return Inst('gep',res,Ty('ptr'),dict(bt=bt,p=p,ix=ix),line)
    if op=='load':
        ts.acc('atomic'); ts.acc('volatile'); t=ts.ty(); ts.exp(','); ts.ty(); p=ts.val(Ty('ptr'))
        return Inst('load',res,t,dict(p=p),line)
    if op=='store':
        ts.acc('atomic'); ts.acc('volatile'); t=ts.ty(); v=ts.val(t); ts.exp(','); ts.ty(); p=ts.val(Ty('ptr'))
        return Inst('store',None,t,dict(v=v,p=p),line)
    if op=='alloca':
        t=ts.ty(); n=None
        if ts.acc(','):
            if ts.peek()[0]=='word' and ts.peek()[1] not in('align','addrspace'):
                nt=ts.ty(); n=ts.val(nt)
        return Inst('alloca',res,t,dict(n=n),line)
    if op=='phi':
        flags(); t=ts.ty(); inc=[]
        while True:
            ts.exp('['); v=ts.val(t); ts.exp(','); b=unq(ts.next()[1]); ts.exp(']'); inc.append((v,b))
            if not ts.acc(',') or ts.peek()[1]!='[': break
        return Inst('phi',res,t,dict(inc=inc),line)
    if op=='br':
        if ts.acc('label'): return Inst('br',None,None,dict(to=unq(ts.next()[1])),line)
        t=ts.ty(); c=ts.val(t); ts.exp(','); ts.exp('label'); a=unq(ts.next()[1]); ts.exp(','); ts.exp('label'); b=unq(ts.next()[1])
        return Inst('cbr',None,None,dict(c=c,a=a,b=b),line)
    if op=='switch':
        t=ts.ty(); v=ts.val(t); ts.exp(','); ts.exp('label'); d=unq(ts.next()[1]); ts.exp('['); cs=[]
        while not ts.acc(']'):
            ct=ts.ty(); cv=ts.val(ct); ts.exp(','); ts.exp('label'); cs.append((cv,unq(ts.next()[1])))
        return Inst('switch',None,t,dict(v=v,d=d,cs=cs),line)
    if op=='ret':
        t=ts.ty()
        return Inst('ret',None,t,dict(v=None if t.k=='void' else ts.val(t)),line)
    if op in('unreachable','resume'): return Inst(op,None,None,{},line)
    if op in('call','invoke'): return parse_call(ts,res,op,line)
    if op=='extractvalue':
        t=ts.ty(); v=ts.val(t); ix=[]
        while ts.acc(','):
            if ts.peek()[0]!='num': break
            ix.append(int(ts.next()[1]))
        return Inst('extractvalue',res,t,dict(v=v,ix=ix),line)
    if op=='insertvalue':
        t=ts.ty(); v=ts.val(t); ts.exp(','); t2=ts.ty(); x=ts.val(t2); ix=[]
        while ts.acc(','):
            if ts.peek()[0]!='num': break
            ix.append(int(ts.next()[1]))
        return Inst('insertvalue',res,t,dict(v=v,x=x,xt=t2,ix=ix),line)
    return Inst('?',res,None,{'op':op},line)

TERM={'br','cbr','switch','ret','unreachable','resume','invoke'}

def parse_module(text,want=None):
    mod=Module(); lines=text.split('\n'); i=0; n=len(lines)
    while i<n:
        L=lines[i]
        if L.startswith('%') and ' = type ' in L:
            nm,rest=L.split(' = type ',1)
            nm=unq(nm.strip())
            if rest.strip()=='opaque': mod.types[nm]=Ty('opaque')
            else:
                try:
                    t=TS(tokenize(rest),mod).ty(); t.name=nm; mod.types[nm]=t
                except ParseError: pass
        elif L.startswith('@'):
            nm=unq(L.split(' = ',1)[0].strip()); mod.globals[nm]=L
        elif L.startswith('declare'):
            m=re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(',L)
            if m: mod.decls[unq('@'+m.group(1))]=L
        elif L.startswith('define'):
            m=re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(',L)
            name=unq('@'+m.group(1)); f=Func(name)
            # args
            j=m.end(); d=1; k=j
            while d:
                c=L[k]
                if c=='(': d+=1
                elif c==')': d-=1
                elif c=='"': k=L.index('"',k+1)
                k+=1
            argtxt=L[j:k-1]
            if want is None or name in want:
                ts=TS(tokenize(argtxt),mod)
                while ts.peek()[0] is not None:
                    if ts.acc('...'): break
                    t=ts.ty(); ts.skip_attrs()
                    nm=unq(ts.next()[1]) if ts.peek()[0]=='loc' else None
                    f.args.append((t,nm)); ts.acc(',')
                i+=1; cur=None
                while lines[i]!='}':
                    s=lines[i]
                    mm=re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):',s)
                    if mm:
                        bn=mm.group(1); bn=bn[1:-1] if bn[0]=='"' else bn
                        cur=Block('%'+bn); f.blocks[cur.name]=cur; f.order.append(cur.name)
                    elif s.strip() and not s.strip().startswith(';'):
                        if cur is None:
                            cur=Block('%'+str(len([a for a in f.args])) ); f.blocks[cur.name]=cur; f.order.append(cur.name)
                        # join multi-line switch / landingpad / invoke
                        t=s
                        if re.search(r'^\s*switch ',s):
                            while ']' not in t.split('[',1)[1]:
                                i+=1; t+=' '+lines[i]
                        elif re.match(r'\s*(%\S+ = )?invoke\b',s) and ' unwind ' not in s:
                            i+=1; t+=' '+lines[i]
                        elif 'landingpad' in s:
                            while re.match(r'^\s+(catch|cleanup|filter)\b',lines[i+1]): i+=1; t+=' '+lines[i]
                            m2=re.match(r'\s*(%\S+) = landingpad',t)
                            cur.insts.append(Inst('landingpad',m2.group(1) if m2 else None,None,{},t)); i+=1; continue
                        try: ins=parse_inst(t,mod)
                        except (ParseError,ValueError) as e:
                            m2=re.match(r'\s*(%\S+) = ',t)
                            ins=Inst('?',m2.group(1) if m2 else None,None,{'op':t,'err':str(e)},t)
                        if ins.op=='phi': cur.phis.append(ins)
                        elif ins.op in TERM: cur.term=ins
                        else: cur.insts.append(ins)
                    i+=1
                f.entry=f.order[0]; mod.funcs[name]=f
            else:
                mod.decls[name]=L
                while lines[i]!='}': i+=1
        i+=1
    return mod

def succs(b):
    t=b.term
    if t.op=='br': return [t.a['to']]
    if t.op=='cbr': return [t.a['a'],t.a['b']]
    if t.op=='switch': return [t.a['d']]+[x for _,x in t.a['cs']]
    if t.op=='invoke': return [t.a['normal']]
    return []

def loops(f):
    """natural loops: header -> set(block names). Reducible CFGs only."""
    # dominators (simple iterative)
    order=[];seen=set()
    def dfs(b):
        st=[(b,iter(succs(f.blocks[b])))]; seen.add(b)
        while st:
            x,it=st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); st.append((y,iter(succs(f.blocks[y])))); break
            else:
                order.append(x); st.pop()
    dfs(f.entry); rpo=order[::-1]
    preds={b:[] for b in rpo}
    for b in rpo:
        for s in succs(f.blocks[b]): preds[s].append(b)
    dom={b:set(rpo) for b in rpo}; dom[f.entry]={f.entry}
    ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            nd=set.intersection(*[dom[p] for p in preds[b]])|{b}
            if nd!=dom[b]: dom[b]=nd; ch=True
    res={}
    for b in rpo:
        for s in succs(f.blocks[b]):
            if s in dom[b]:
                body=res.setdefault(s,{s}); st=[b]
                while st:
                    x=st.pop()
                    if x in body: continue
                    body.add(x); st.extend(preds[x])
    return res,rpo,preds
