import sys,json,traceback
sys.path[:0]=['/repo','/verif/lib']
import peglib as L, pegchecks as P
r=json.load(open(sys.argv[1]))['record']['g']
g=P.from_nodes(r['N'],r['lv']); g.start=r['start']
for i,q in enumerate(r['N']):
    if q['nm'][0]==':' and q['op']!='fwd' and q['nm'] not in L.PT.values() and q['nm'] not in (':OneOrMore',':ZeroOrMore',':Counted'): g.N[i]['pn']=q['nm'][1:]
un=lambda v:[(t['k'], t['ref'] if t['k']=='p' else ''.join(t['cs'])) for t in v]
g.comments=r['comments']
g.skip={k:un(v) for k,v in r['skip'].items()} if r['skip'] else {}
g.resume={k:un(v) for k,v in r['resume'].items()} if r['resume'] else {}
gr=L.build(g)
try: print(gr(''.join(r['x'])).as_sxpr())
except Exception: traceback.print_exc()
