"""print a source file without docstrings (reading aid)"""
import ast,sys,io,tokenize
def strip(path):
    src=open(path).read(); t=ast.parse(src); lines=src.split('\n'); drop=set()
    for n in ast.walk(t):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
            drop.update(range(n.body[0].lineno,n.body[0].end_lineno+1))
    for i,l in enumerate(lines,1):
        if i not in drop and l.strip() and not l.strip().startswith('#'): print(i,l)
for p in sys.argv[1:]:
    print('=====',p); strip(p)
