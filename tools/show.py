import json,sys
sys.path.insert(0,'/verif/lib')
def sh(N,i,d=0):
    r=N[i-1]; op=r['op']; nm=r['nm']
    x=''.join(r.get('cs',[]))
    extra=''
    if op=='rx': extra=f"[{'^' if r['neg'] else ''}{x}]{{{r['min']},{r['max']}}}"
    elif op in('text','icase'): extra=repr(x)
    elif op=='rep': extra=f"{{{r['lo']},{r['hi']}}}"
    elif op=='inter': extra=str(r['reps'])
    elif op=='smart': extra=str([(q['nm'] if q['cap'] else '-', ''.join(q['cs']), q['lit'],q['min'],q['max']) for q in r['gr']])
    if op=='seq' and r['mand']<1000: extra='§%d'%r['mand']
    s=f"{op}{extra}" + (f"<{nm}>" if not nm.startswith(':') or op in('syn',) else '')+('!' if r['dr'] else '')
    if d>8: return s
    if r['as']: s+='('+', '.join(sh(N,a,d+1) if N[a-1]['op']!='fwd' or d<3 else 'fwd' for a in r['as'])+')'
    return s
def T(t): return '('+t['n']+'@'+str(t['p'])+' '+(' '.join(map(T,t['c'])) if t['c'] else repr(''.join(t['t'])))+')'
for f in sys.argv[1:]:
    r=json.load(open(f)); rec=r['record']; g=rec['g']
    print(r['signature']); print('  lv',g['lv'], sh(g['N'],g['start'])); print('  text',''.join(g['x']), 'obs', rec['o']['kind'],rec['o']['end'],rec['o']['errs'],rec['o']['exc'], T(rec['o']['tree']))
    e=r.get('expected'); 
    if isinstance(e,dict): print('  EXP', e['kind'],e['end'],e['errs'],T(e['tree']))
    else: print('  EXP',e)
