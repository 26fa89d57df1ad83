from props.cw.units import output
from vf.refute import Refuter
LEVEL = 'proof'
UNITS = output()
REFUTERS = [Refuter('differential', 'cw/refute.c', seconds=40, max_len=60, flags=['-DPROP=7'], ubsan='bounds,null,signed-integer-overflow', timeout=5)]
TECHNIQUE = 'function contracts and loop invariants on the real cwalk.c, discharged by CBMC (SAT)'
TRUSTED = ['memmove and strlen contracts']
EXPLANATION = 'the primitives are proved to write exactly the bytes that fit; the composing functions are proved to hand the primitives a gap-free sequence of pieces, independent of the buffer, whose total is the returned length'
