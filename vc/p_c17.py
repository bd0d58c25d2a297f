from ckpt import *

def spec():
    return [dict(id='C17', parts=('mat', 'wide'), name='budget', mode='exact', contracts=contracts('C17'), roots=[RS], specs=[MODEL, BIN, WEAK, SEQ], broadcast=BC), find_part('C17')]
ASSUME = ASSUME_CK
