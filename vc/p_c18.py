from ckpt import *

def spec():
    return [dict(id='C18', parts=('mat', 'wide'), name='cost', mode='exact', contracts=contracts('C18'), roots=[RS], specs=[MODEL, BIN, OPT, SEQ], broadcast=BC + ['b_choice', 'b_ok_one', 'b_ok_last', 'b_rem_push', 'b_rem_init', 'b_rem_pop']), find_part('C18')]
ASSUME = ASSUME_CK
