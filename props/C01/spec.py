from props.inf.units import gz_units, units
LEVEL = 'proof'
UNITS = gz_units('safety') + units('safety')

from vf.refute import Refuter
from props.inf.seeds import seeds
REFUTERS = [Refuter('differential', 'inf/refute.c', seconds=60, max_len=40000, seeds=seeds, flags=['-DPROP=1'], ubsan='undefined')]
TECHNIQUE = 'function contracts and loop invariants on the real tinflate.c/tinfgzip.c (memory safety, arithmetic, termination), discharged by CBMC (SAT, kissat)'
EXPLANATION = 'every function is checked against the contracts of the functions it calls; loops are cut by invariants, so input length, output size and stream content are unbounded (lengths below 2^29 for addressing)'
TRUSTED = ['callers pass buffers of the declared sizes']
