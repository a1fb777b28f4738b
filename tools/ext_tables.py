import re,json,os,glob
T={}
for f in sorted(glob.glob('/repo/src/**/*.rs',recursive=True)):
    s=open(f).read()
    s=re.sub(r'//[^\n]*','',s)
    base=os.path.basename(f)[:-3]
    for m in re.finditer(r'(?:const|let)\s+(\w+)\s*:\s*\[+[^=]*?\]\s*=\s*(\[.*?\])\s*;',s,re.S):
        name=m.group(1)
        if name=='steps': continue
        fn=re.findall(r'fn\s+(\w+)\s*\(',s[:m.start()])
        # file-level const?
        depth=s[:m.start()].count('{')-s[:m.start()].count('}')
        key=(fn[-1] if depth>0 and fn else base)+':'+name
        txt=m.group(2).replace('(','[').replace(')',']')
        txt=re.sub(r',\s*\]',']',txt)
        v=eval(txt)
        def conv(x):
            return [conv(y) for y in x] if isinstance(x,(list,tuple)) else x
        T[key]=conv(v)
json.dump(T,open('/tmp/w/tables_raw.json','w'))
for k,v in T.items(): print(k,len(v))
