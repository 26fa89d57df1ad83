from props.cw.units import segments
from vf.refute import Refuter
LEVEL = 'proof'
UNITS = segments()
REFUTERS = [Refuter('differential', 'cw/refute.c', seconds=40, max_len=60, flags=['-DPROP=8'], ubsan='bounds,null,signed-integer-overflow', timeout=5)]
TECHNIQUE = 'function contracts and loop invariants on the real cwalk.c, discharged by CBMC (SAT)'
TRUSTED = ['strncmp: CBMC library model']
EXPLANATION = 'facts about all characters of a path are proved at one arbitrary index; callers are checked against the contracts of the scanning functions; paths below 1 MiB for addressing, otherwise unbounded'
