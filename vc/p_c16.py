from ckpt import *

def spec():
    return [dict(id='C16', parts=('mat', 'wide'), name='reversal', mode='exact', contracts=contracts('C16'), roots=[RS], specs=[MODEL, BIN, WEAK, SEQ], broadcast=BC), find_part('C16'), reject_part('C16')]
ASSUME = ASSUME_CK
