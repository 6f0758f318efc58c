import sym,traceback
oa=sym.Engine.base_facts
def bf(self,st,b):
    if 'begin!10'==str(b) and not self.spec and not self.dry: traceback.print_stack(limit=12)
    return oa(self,st,b)
sym.Engine.base_facts=bf
