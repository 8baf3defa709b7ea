"""Verdicts, known findings and evidence, shared by all checks."""
import os, sys, json, time, traceback, argparse
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class Broken(Exception):
    """the analysis itself cannot be carried out (vanished anchor, no instances, ...)"""
class Check:
    def __init__(self,prop,level,explanation,argv=None):
        ap=argparse.ArgumentParser(); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick'))
        ap.add_argument('-v',action='store_true')
        a=ap.parse_args(argv)
        self.prop=prop; self.level=level; self.expl=explanation; self.tier=a.tier if a.tier in('quick','thorough') else 'quick'; self.verbose=a.v
        self.thorough=self.tier=='thorough'
        self.t0=time.time(); self.viol=[]; self.counts={}; self.samples=[]; self.assume=[]; self.nob=0; self.nok=0
        self.known={}; self.hit=set(); self.units=[]
        p=os.path.join(HERE,'known_findings.json')
        if os.path.exists(p):
            for k in json.load(open(p)).get('known',[]):
                if k['property']==prop: self.known[k['key']]=k['what']
    def count(self,name,n=1): self.counts[name]=self.counts.get(name,0)+n
    def need(self,cond,msg):
        if not cond: raise Broken(msg)
    def sample(self,s):
        if len(self.samples)<12: self.samples.append(str(s)[:400])
    def ob(self,ok,key,msg,loc='',rule=None):
        """one obligation; key identifies construct+rule (stable, no line numbers)"""
        self.nob+=1
        if rule: self.count(rule)
        if ok: self.nok+=1; return True
        self.viol.append((key,msg() if callable(msg) else msg,loc)); return False
    def violation(self,key,msg,loc=''): return self.ob(False,key,msg,loc)
    def atleast(self,name,n):
        self.need(self.counts.get(name,0)>=n,'rule %r has %d instances, at least %d were expected'%(name,self.counts.get(name,0),n))
    def finish(self):
        new=[]
        for k,m,l in self.viol:
            if k in self.known:
                if k not in self.hit:
                    self.hit.add(k); print('KNOWN-FINDING: property=%s %s'%(self.prop,self.known[k]))
            else: new.append((k,m,l))
        os.makedirs(HERE+'/evidence/replay',exist_ok=True)
        rp=HERE+'/evidence/replay/%s.txt'%self.prop
        if new:
            with open(rp,'w') as f:
                for k,m,l in new: f.write('%s: [%s] %s\n'%(l,k,m))
        cov=dict(explanation=self.expl,obligations=self.nob,discharged=self.nok,counts=self.counts,samples=self.samples,units=self.units[:400],
                 checker_cmd='python3 checks/%s.py --tier %s'%(self.prop,self.tier),
                 trusted_base=['clang-18 front end and opt-18 SSA construction','lib/llir.py, lib/dom.py, lib/absint.py (value analysis)','the reference formulas written in checks/%s.py'%self.prop])
        if self.level=='translation_validation':
            cov['programs']=self.counts.get('programs',0); cov['disagreements_checked']=self.nob
        ev=dict(property=self.prop,tier=self.tier,seed=int(os.environ.get('VERIF_SEED','1') or 1),level=self.level,coverage=cov,wall_s=round(time.time()-self.t0,2),violations=len(new),assumptions=self.assume)
        with open(HERE+'/evidence/%s.json'%self.prop,'w') as f: json.dump(ev,f,indent=1)
        print('%s: %d obligations, %d discharged, %s, %.1f s'%(self.prop,self.nob,self.nok,json.dumps(self.counts),time.time()-self.t0))
        for k,m,l in new[:12]: print('  %s: [%s] %s'%(l,k,str(m)[:600]))
        if len(new)>12: print('  ... %d more, see %s'%(len(new)-12,rp))
        if new: print('VIOLATION property=%s replay=%s'%(self.prop,rp)); sys.stdout.flush(); return 1
        return 0
def main(prop,level,expl,run):
    c=Check(prop,level,expl)
    sys.setrecursionlimit(200000)
    try:
        run(c)
        c.need(c.nob>0,'no obligation was generated')
        rc=c.finish()
    except Broken as e: print('ANALYSIS-BROKEN property=%s %s'%(prop,e)); rc=3
    except Exception as e:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s %s: %s'%(prop,type(e).__name__,str(e)[:800])); rc=3
    sys.stdout.flush(); sys.exit(rc)
