import re,sys,json,yaml,glob,os,subprocess
R='/repo/tests/'
out=[]
for f in sorted(glob.glob(R+'execution/*.md')):
    t=open(f).read(); n=os.path.basename(f)
    d={'name':n,'sdl':None,'mocks':[],'tests':[],'env':None,'config':None}
    skip='skip: true' in t.lower()
    for lang,tag,body in re.findall(r'^```(\w+) @([^\n]+)\n(.*?)^```',t,re.S|re.M):
        if tag=='schema':
            if d['sdl']: skip='two schemas'
            d['sdl']=body
        elif tag=='mock': d['mocks']=yaml.safe_load(body)
        elif tag=='test': d['tests']=yaml.safe_load(body)
        elif tag=='env': d['env']=yaml.safe_load(body)
        elif tag=='config': d['config']=body
        elif tag.startswith('file:'): skip=skip or 'files'
    if not d['tests'] or skip: continue
    out.append(d)
inp='\n'.join(json.dumps(d,default=str) for d in out)
p=subprocess.run([sys.argv[1]],input=inp,capture_output=True,text=True,cwd='/verif/build')
ok=bad=0
byn={d['name']:d for d in out}
for l in p.stdout.splitlines():
    try: r=json.loads(l)
    except Exception: continue
    n=r['name']
    if 'error' in r: print('ERR',n,r['error'][:300]); bad+=1; continue
    for i,g in enumerate(r['responses']):
        sf=R+f'core/snapshots/{n}_{i}.snap'
        if not os.path.exists(sf): continue
        s=open(sf).read().split('---\n',2)[2]
        try: w=json.loads(s)
        except Exception as e: print('snap?',n,i); continue
        if 'error' in g: print('FAILED',n,i,g['error'][:200]); bad+=1; continue
        try: b=json.loads(g['body'])
        except Exception: b=g['body']
        if w['status']==g['status'] and (w['body']==b): ok+=1
        else:
            bad+=1; print('DIFF',n,i,'\n   want',w['status'],json.dumps(w['body'])[:600],'\n   got ',g['status'],json.dumps(b)[:600])
print(ok,'ok',bad,'bad'); print(p.stderr[-500:])
