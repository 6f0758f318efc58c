from dbg import *
