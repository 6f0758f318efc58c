from contracts import *
from sym import *
import stl
from stl import *
