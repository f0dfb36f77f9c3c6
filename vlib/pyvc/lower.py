"""Mechanical lowering of Cython sources (.pyx/.pxd) to Python syntax trees.

What is dropped (recorded in the returned list): C type declarations and annotations, `except -1`/`except? NULL` clauses,
cimports, `cdef extern` blocks, pointer/address syntax.  Kept: every statement, in order.  C casts `<object>x` become x, `NULL`
becomes None; C integers are treated as mathematical integers."""
import ast, re

CT=r'(?:unsigned\s+)?(?:object|bint|int|long|double|float|Py_ssize_t|uint64_t|int64_t|size_t|void|str|list|dict|set|tuple|bool|PyObject|np\.\w+_t|np\.ndarray|cyRegister|complex|np\.random\.\w+)'
TY=CT+r'(?:\s*\[[^\]]*\])?(?:\s*\*+)?'

def split_args(s):
    out=[]; d=0; cur=''
    for ch in s:
        if ch in '([{': d+=1
        if ch in ')]}': d-=1
        if ch==',' and d==0: out.append(cur); cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur)
    return out

def arg(a,dropped):
    t=a.strip()
    m=re.match(r'^('+TY+r')\s*\b([A-Za-z_]\w*)\s*(=.*)?$',t,re.S)
    if m and not re.match(r'^'+CT+r'\s*(=|$)',t): dropped.append('type '+m.group(1)+' of '+m.group(2)); return m.group(2)+(m.group(3) or '').replace('=*','=None')
    return t

def balanced(lines,i):
    """joins the logical line that starts at i"""
    s=lines[i]; n=1
    while s.count('(')+s.count('[')+s.count('{')>s.count(')')+s.count(']')+s.count('}') and i+n<len(lines): s+='\n'+lines[i+n]; n+=1
    return s,n

def lower_text(src):
    dropped=[]; out=[]; lines=src.split('\n'); i=0; in_doc=False
    while i<len(lines):
        l=lines[i]; st=l.strip(); ind=l[:len(l)-len(l.lstrip())]
        if st.startswith('#') or st=='' : out.append(l if st=='' else ''); i+=1; continue
        m=re.match(r'^[rRuUbBfF]*("""|\'\'\')',st)
        if m:
            q=m.group(1); j=i; body=st[m.end():]
            while q not in body: j+=1; body=lines[j]
            out+=lines[i:j+1]; i=j+1; continue
        if re.match(r'^(from\s+\S+\s+)?cimport\b',st) or re.match(r'^from\s+\S+\s+cimport\b',st):
            s,n=balanced(lines,i); dropped.append(' '.join(s.split())[:100])
            m=re.match(r'^from\s+(\S+)\s+cimport\s+(.*)$',' '.join(s.split()))
            out.append(ind+(f'from {m.group(1)} import {m.group(2)}' if m and m.group(1).startswith('dwave') else 'pass')); out+=['']*(n-1); i+=n; continue
        if re.match(r'^cdef\s+extern\b',st):
            dropped.append(st); j=i+1
            while j<len(lines) and (lines[j].strip()=='' or len(lines[j])-len(lines[j].lstrip())>len(ind)): j+=1
            cf=re.findall(r'(\w+)\s+"(\w+)"\s*\(','\n'.join(lines[i:j]))
            out.append(ind+('; '.join(f'{a} = __cfun("{b}")' for a,b in cf) or 'pass')); out+=['']*(j-i-1); i=j; continue
        m=re.match(r'^cdef\s+class\s+(.*)$',st)
        if m: out.append(ind+'class '+m.group(1)); i+=1; continue
        m=re.match(r'^(?:cdef\s+inline|cpdef|cdef)\s+(?:('+TY+r')\s*)?([A-Za-z_]\w*)\s*\(',st)
        if m and not re.match(r'^cdef\s+'+TY+r'\s*[A-Za-z_]\w*\s*=',st):
            s,n=balanced(lines,i)
            k=s.index('(',s.index(m.group(2)+'(') if m.group(2)+'(' in s else 0); e=s.rindex(')')
            # the parameter list ends at the matching bracket
            d=0
            for e in range(k,len(s)):
                if s[e]=='(': d+=1
                if s[e]==')':
                    d-=1
                    if d==0: break
            tail=s[e+1:].strip()
            if m.group(1): dropped.append(f'return type {m.group(1)} of {m.group(2)}')
            if tail.rstrip(':').strip(): dropped.append(f'"{tail.rstrip(":").strip()}" of {m.group(2)}')
            args=', '.join(arg(a,dropped) for a in split_args(s[k+1:e]))
            if not tail.endswith(':'): out.append(ind+f'def {m.group(2)}({args}): pass')     # a declaration (.pxd)
            else: out.append(ind+f'def {m.group(2)}({args}):')
            out+=['']*(n-1); i+=n; continue
        m=re.match(r'^def\s',st)
        if m:
            s,n=balanced(lines,i); k=s.index('(')
            d=0
            for e in range(k,len(s)):
                if s[e]=='(': d+=1
                if s[e]==')':
                    d-=1
                    if d==0: break
            args=', '.join(arg(a,dropped) for a in split_args(s[k+1:e]))
            out.append(s[:k+1]+args+s[e:]); out+=['']*(n-1); i+=n; continue
        m=re.match(r'^cdef\s+('+TY+r')\s*([A-Za-z_]\w*)\s*=\s*(.*)$',st,re.S)
        if m:
            s,n=balanced(lines,i); m=re.match(r'^cdef\s+('+TY+r')\s*([A-Za-z_]\w*)\s*=\s*(.*)$',s.strip(),re.S)
            dropped.append(f'type {m.group(1)} of {m.group(2)}')
            t=m.group(1).split('[')[0].strip()
            rhs=m.group(3)
            rhs=re.sub(r'\s+#[^\n\'"]*$','',rhs)
            if t in('int','long','Py_ssize_t','int64_t','uint64_t','size_t'): rhs=f'__c_int({rhs})'
            elif t=='bint': rhs=f'bool({rhs})'
            out.append(ind+f'{m.group(2)} = {rhs}'); out+=['']*(n-1); i+=n; continue
        m=re.match(r'^cdef\s+'+TY+r'\s*([A-Za-z_]\w*(\s*,\s*[A-Za-z_]\w*)*)\s*$',st)
        if m: dropped.append(st); out.append(ind+'pass'); i+=1; continue
        if re.match(r'^(cdef|cpdef|ctypedef|cppclass)\b',st): raise SyntaxError('cannot lower: '+st)
        out.append(l); i+=1
    s='\n'.join(out)
    s=re.sub(r'<\s*'+TY+r'\s*>\s*(?=[A-Za-z_&(])','',s)
    s=re.sub(r'==\s*NULL\b','is None',s); s=re.sub(r'!=\s*NULL\b','is not None',s); s=re.sub(r'\bNULL\b','None',s)
    s=re.sub(r'(?<=[,(=\s])&([A-Za-z_]\w*)\[([^\]]*)\]',r'__addr(\1, \2)',s)
    return s,dropped

def lower(path):
    s,dropped=lower_text(open(path).read())
    return ast.parse(s,path),dropped
