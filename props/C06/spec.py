from props.tar.units import header, walk, unpack
from vf.refute import Refuter
LEVEL = 'proof'
UNITS = unpack()
REFUTERS = [Refuter('differential', 'tar/refute.c', seconds=40, max_len=4000, flags=['-DPROP=6'], ubsan='', asan=False, timeout=5)]
TECHNIQUE = 'function contracts and loop invariants on the real muntar.c, discharged by CBMC (SAT, kissat)'
TRUSTED = ['libc contracts: strlen/strcpy/memcpy on terminated strings, mkdir/fopen/fwrite/fclose record their path and may fail']
EXPLANATION = 'each function is checked against the contracts of the functions it calls; the member loops are cut by invariants, so archive length, member count, names and failures are unbounded (archives below 1 MiB for addressing)'
