from vf.engine import Unit
from vf.cparse import Cut
from vf.refute import Refuter
M = 'src/array.c'
LEVEL = 'proof'


def unit(name, fns, what=None, nm=None, removes=(), **k):
    k['defs'] = ['-DU_' + name] + (['-DWHAT=%d' % what] if what is not None else []) + list(k.get('defs', ()))
    k.setdefault('unwind', 3)
    k.setdefault('timeout', 200)
    k.setdefault('fallback', dict(unwind=20))
    if removes:
        k['removes'] = {M: list(removes)}
    u = Unit(name, 'C09/arr.c', fns, **k)
    u.name = nm or name
    return u


def slots(v):
    return '__CPROVER_havoc_slice(%s->pData, %s->nSize * sizeof(void *));' % (v, v)


MF = dict(cbmc=['--malloc-may-fail', '--malloc-fail-null'])
init = Cut('i <= nSize && pArr->nSize == nSize && (g_t >= i || pArr->pData[g_t] == 0)', 'nSize - i', vars=['i'], roots=['pArr'], havoc='if (nSize) __CPROVER_havoc_object(pArr->pData);')
re_ = Cut('i >= nUsed && i <= nSize && nUsed == g_u && pArr->nUsed == g_u && pArr->nSize == nSize && (g_t >= i || pArr->pData[g_t] == (g_t < nUsed ? (xarray_data_t *)g_0 : 0))', 'nSize - i', vars=['i'], roots=['pArr'],
          havoc='__CPROVER_havoc_object(pArr->pData);')
rem = Cut('i >= g_ix && i < g_u && nIndex == g_ix && pArr->nUsed == g_u && pArr->pData == g_base && (g_t >= pArr->nSize || pArr->pData[g_t] == (g_t >= g_ix && g_t < i ? (xarray_data_t *)g_1 : (xarray_data_t *)g_0)) && (g_t + 1 < i || g_t + 1 >= pArr->nSize || pArr->pData[g_t + 1] == (xarray_data_t *)g_1 || (g_t + 1 >= g_ix && g_t + 1 < i))',
          'g_u - i', vars=['i'], roots=['pArr'], havoc='__CPROVER_havoc_object(pArr->pData);')
ins = Cut('i > g_ix && i <= g_u && nIndex == g_ix && pArr->nUsed == g_u && pArr->pData == g_base && pArr->nSize > g_u && (g_t >= pArr->nSize || pArr->pData[g_t] == (xarray_data_t *)(g_t < g_ix ? g_0 : g_t == g_ix ? g_new : g_t < i ? g_m : g_0))'
          ' && (i != g_t || pOldData == g_m) && (i != g_u || pOldData == g_last) && (i > g_u - 1 || pArr->pData[g_u - 1] == g_last) && (g_t == 0 || g_t > g_u || i > g_t - 1 || pArr->pData[g_t - 1] == g_m) && (i <= g_ix + 1 || pArr->pData[g_ix + 1] == g_old)',
          'g_u - i', vars=['i', 'pOldData'], roots=['pArr'], calls=['XArray_Set'], havoc='__CPROVER_havoc_object(pArr->pData);')
ins.inv = ins.inv.replace('pArr->pData[g_ix + 1] == g_old', 'pArr->pData[g_ix + 1] == g_old') + ' && (i != g_ix + 1 || pOldData == g_old)'
clr = Cut('i <= pArr->nSize && s_n_ == i && (g_t >= pArr->nSize || pArr->pData[g_t] == (g_t < i ? 0 : (xarray_data_t *)g_0))', 'pArr->nSize - i', vars=['i', 's_n_'], roots=['pArr'], calls=['XArray_ClearData'], havoc='__CPROVER_havoc_object(pArr->pData);')
clr.inv = clr.inv.replace('s_n_', 'g_cleared')
clr.vars = ['i', 'g_cleared']
UNITS = [
    unit('newdata', ['XArray_NewData', 'XArray_FreeData'], canaries=2, defs=['-DCUTMEM', '-DBYTES'], **MF),
    unit('cleardata', ['XArray_ClearData', 'XArray_FreeData'], defs=['-DREC'], unwind=6),
    unit('init', ['XArray_Init'], canaries=2, loops={M: {'XArray_Init': [init]}}, **MF),
    unit('new', ['XArray_New'], canaries=2, removes=['XArray_Init'], **MF),
    unit('realloc', ['XArray_Realloc'], canaries=3, defs=['-DCUTMEM'], loops={M: {'XArray_Realloc': [re_]}}, **MF),
    unit('add', ['XArray_Add', 'XArray_CheckSpace'], 0, removes=['XArray_Realloc', 'XArray_Init', 'XArray_ClearData'], canaries=2),
    unit('add', ['XArray_AddData'], 1, nm='adddata', removes=['XArray_Realloc', 'XArray_Init', 'XArray_ClearData', 'XArray_NewData'], canaries=2),
    unit('add', ['XArray_AddDataKey'], 2, nm='adddatakey', removes=['XArray_Realloc', 'XArray_Init', 'XArray_ClearData', 'XArray_NewData'], canaries=2),
    unit('remove', ['XArray_Remove'], 0, removes=['XArray_Realloc', 'XArray_ClearData'], canaries=2, loops={M: {'XArray_Remove': [rem]}}),
    unit('remove', ['XArray_Delete'], 1, nm='delete', removes=['XArray_Realloc', 'XArray_ClearData'], canaries=2, loops={M: {'XArray_Remove': [rem]}}),
    unit('insert', ['XArray_Insert', 'XArray_Set'], 0, removes=['XArray_Realloc', 'XArray_Init', 'XArray_ClearData'], canaries=2, loops={M: {'XArray_Insert': [ins]}}),
    unit('insert', ['XArray_InsertData'], 1, nm='insertdata', removes=['XArray_Realloc', 'XArray_Init', 'XArray_ClearData', 'XArray_NewData'], canaries=2, loops={M: {'XArray_Insert': [ins]}}),
    unit('get', ['XArray_Get', 'XArray_GetData', 'XArray_GetDataOr', 'XArray_GetSize', 'XArray_GetKey', 'XArray_Contains', 'XArray_Used', 'XArray_Size']),
    unit('swap', ['XArray_Swap']),
    unit('clear', ['XArray_Clear'], removes=['XArray_ClearData'], loops={M: {'XArray_Clear': [clr]}}),
    unit('destroy', ['XArray_Destroy', 'XArray_Free'], removes=['XArray_Clear'], canaries=2, defs=['-DREC'], unwind=6),
]
REFUTERS = [Refuter('histories', 'C09/refute.c', seconds=40, max_len=600, ubsan='bounds,null', timeout=5)]
TECHNIQUE = 'representation invariant as function contracts and loop invariants on the real array.c, discharged by CBMC (SAT)'
TRUSTED = ['memcpy contract', 'malloc may fail; storage is fresh']
EXPLANATION = 'each operation is proved to keep the representation invariant and to change the list exactly as specified, at one arbitrary slot; by induction over histories the array is the list. Arrays below 2^20 slots for addressing.'
