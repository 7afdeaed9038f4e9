"""Compact printer for dumped syntax trees (debug aid and for replay reports)."""
def ex(e):
    if e is None: return 'NIL'
    k=e['k']
    if k in('int','float','bool'): return str(e['v'])
    if k=='str': return repr(e['v'])
    if k=='null': return 'null'
    if k=='this': return 'this'
    if k=='enumc': return e['n'].split('::')[-1]
    if k=='var': return e['n']+('@g' if 'g' in e else '#%d'%e['id'])
    if k=='fref': return 'fref:'+e['n']
    if k=='mem': return ex(e['b'])+'.'+e['f']
    if k=='call':
        return (('['+ex(e['obj'])+']') if 'obj' in e else '')+(e.get('n') or '('+ex(e['fe'])+')')+('<'+','.join(e['targs'])+'>' if 'targs' in e else '')+'('+', '.join(map(ex,e['a']))+')'
    if k=='ctor': return 'new~'+e['c']+'{'+', '.join(map(ex,e['a']))+'}'+('C' if e.get('copy') else '')+('M' if e.get('move') else '')
    if k=='bin': return '('+ex(e['lhs'])+e['op']+ex(e['rhs'])+')'
    if k=='un': return e['op']+ex(e['e'])
    if k=='cond': return '(%s?%s:%s)'%(ex(e['c']),ex(e['x']),ex(e['y']))
    if k=='ilist': return '{'+', '.join(map(ex,e['a']))+'}'
    if k=='cast': return '<%s:%s>%s'%(e['ck'],e['t'],ex(e['e']))
    if k=='lambda': return 'lambda['+','.join(('&' if c.get('ref') else '')+str(c.get('n','this'))+('='+ex(c['init']) if c.get('init') else '') for c in e['caps'])+']('+','.join(p['n']+'#%d'%p['id'] for p in e['params'])+')'+st(e['body'],1)
    if k=='throw': return 'throw '+ex(e.get('e'))
    if k=='sub': return ex(e['b'])+'['+ex(e['i'])+']'
    if k=='new': return 'new '+e['nt']+' '+ex(e.get('e'))
    return k+'?'+','.join(map(ex,e.get('ch',[])))
def st(s,i=0):
    p='\n'+'  '*i
    if s is None: return p+'NIL'
    k=s['s']
    if k=='block': return p+'{'+''.join(st(x,i+1) for x in s['b'])+p+'}'
    if k=='decl': return p+'; '.join('%s %s#%d = %s'%(v['t'],v['n'],v['id'],ex(v.get('init'))) for v in s['v'])
    if k=='if': return p+'if('+ex(s['c'])+')'+st(s['th'],i+1)+(p+'else'+st(s['el'],i+1) if 'el' in s else '')
    if k in('while','do'): return p+k+'('+ex(s['c'])+')'+st(s['b'],i+1)
    if k=='for': return p+'for('+(st(s['init']) if 'init' in s else '')+';'+ex(s.get('c'))+';'+ex(s.get('inc'))+')'+st(s['b'],i+1)
    if k=='rfor': return p+'for(%s %s#%d : %s)'%(s['v']['t'],s['v']['n'],s['v']['id'],ex(s['r']))+st(s['b'],i+1)
    if k=='switch': return p+'switch('+ex(s['c'])+')'+st(s['b'],i+1)
    if k=='case': return p+'case '+ex(s['c'])+':'+st(s['b'],i+1)
    if k=='default': return p+'default:'+st(s['b'],i+1)
    if k=='return': return p+'return '+(ex(s['e']) if 'e' in s else '')
    if k=='expr': return p+ex(s['e'])
    if k=='try': return p+'try'+st(s['b'],i+1)+''.join(p+'catch('+h.get('t','...')+')'+st(h['b'],i+1) for h in s['h'])
    return p+k
def fn(f):
    return f['n']+'('+', '.join('%s %s#%d'%(p['t'],p['n'],p['id']) for p in f['params'])+')'+(''.join('\n  : %s = %s'%(i.get('field') or i.get('base') or 'deleg',ex(i['e'])) for i in f.get('inits',[])))+st(f.get('body'),0)
if __name__=='__main__':
    import json,glob,sys
    seen=set()
    for p in glob.glob('/tmp/d/*.json'):
        for f in json.load(open(p))['functions']:
            if any(a in f['n'] for a in sys.argv[1:]) and f['f'] not in seen:
                seen.add(f['f']); print(f['file'].split('/')[-1],f['l'],f['ret'],fn(f)); print()
