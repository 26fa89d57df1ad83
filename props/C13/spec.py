from props.cj import units as U
LEVEL = 'proof'
UNITS = U.steps() + U.write() + U.mainu()
TECHNIQUE = 'function contracts on the real source (system calls and tinyCC interface as stated contracts), discharged by CBMC (SAT)'
TRUSTED = ['operating-system calls, C library and tinyCC interface functions are replaced by contracts (props/cj/sys.h, props/cj/file.c): every documented outcome, including failure, is possible',
           'fatal() / early-exit paths inside tinyCC itself are behind the contract of its public functions (result < 0 on failure)']
EXPLANATION = 'each step reports success exactly when all of its parts succeeded; no bound on sizes or numbers of libraries'
