import sys
sys.path.insert(0, '/verif/sa')
import mir, interp, models
from interp import *
P = mir.Prog('/verif/work/dump')
