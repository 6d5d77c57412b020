from vcg.run import *
import os,sys,json
if __name__=='__main__':
    load_all()
    names=[n for n in REG if any(a in n for a in sys.argv[1:])] if len(sys.argv)>1 else list(REG)
    bad=0
    for r in run_many(names):
        np_=sum(o['status']=='proved' for o in r['obls'])
        print('%-34s %3d/%3d %6.1fs q=%d %s %s'%(r['name'],np_,len(r['obls']),r['time'],r['queries'],r['error'] or '',('VACUOUS '+r['vacuous']) if r['vacuous'] else ''))
        for o in r['obls']:
            if o['status']!='proved': bad+=1; print('    ',o['status'],o['name'],o['time'],(o.get('model') or '')[:300].replace('\n',' '))
        if os.environ.get('V'): print(json.dumps(r['inv'],indent=1))
