import sys,glob,pickle
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/contracts')
import ir
def mods(*names):
    return [ir.Module(p) for n in names for p in glob.glob('/tmp/w/ll/*_rotor_%s.cpp.ll'%n)]
