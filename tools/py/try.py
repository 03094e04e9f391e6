import sys, subprocess, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import compose, contracts
cfg = dict(ON_CTX=False, ON_ASI=False, ON_EARLY=False, ON_STRICT=False, ON_COMMENTS=False, ON_POS=False, ON_TARGET=False, ON_G=False)
deg=[]; only=None; extra=[]
for a in sys.argv[1:]:
    if a.startswith('+'): cfg[a[1:]]=True
    elif a.startswith('--bc='): cfg['_bc']=a[5:].split(',')
    elif a.startswith('--only='): only=set(a[7:].split(','))
    elif a.startswith('--deg='): deg=a[6:].split(',')
    else: extra.append(a)
contracts.CFG.clear(); contracts.CFG.update(cfg)
lib = compose.extract()
out, info = compose.compose(cfg, lib, contracts, deg, only=only)
os.makedirs('/tmp/v', exist_ok=True)
open('/tmp/v/gen.rs','w').write(out.text())
json.dump(out.meta, open('/tmp/v/meta.json','w'))
r = subprocess.run(['verus','/tmp/v/gen.rs','--num-threads','8','--multiple-errors','4','--smt-option',os.environ.get('SMT','smt.case_split=1')]+extra, capture_output=True, text=True)
import re
txt = r.stderr
def ann(m):
    ln=int(m.group(1)); me=out.meta[ln-1] if 0<ln<=len(out.meta) else None
    return m.group(0)+ (' [%s %s%s %s]'%(me.get('fn',me.get('part')),me.get('k',''),':'+str(me.get('tag')) if me.get('tag') else '', me.get('src','')) if me else '')
txt = re.sub(r'/tmp/v/gen\.rs:(\d+):\d+', ann, txt)
blocks = re.split(r'\n\n', txt)
blocks = [b for b in blocks if not b.startswith('warning') and 'warning:' not in b[:12]]
print('\n\n'.join(blocks)[:int(os.environ.get('MAXC','14000'))])
print(r.stdout[-600:])
