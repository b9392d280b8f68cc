# bd.py CHECK [names...]: build what a check builds and stop there (build/X_<CHECK>)
import sys; sys.path.insert(0,'/verif')
import vlib, importlib, pkgutil, checks
table={}
for m in pkgutil.iter_modules(checks.__path__): table.update(getattr(importlib.import_module('checks.'+m.name),'CHECKS',{}))
class C(vlib.Ctx):
    def build(self,name,*a,**k):
        p=super().build(name,*a,**k); print(p); return p
    def model_check(self,*a,**k): pass
    def conform(self,*a,**k): pass
    def generate(self,*a,**k): return []
table[sys.argv[1]](C('X_'+sys.argv[1],'quick',1))
