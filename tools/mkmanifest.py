#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = 'contract-based deductive verification: Verus obligations generated from the compiler\'s THIR of /repo'
CLAIMED = {
 'C01': (V + ' (floats opaque, exact)', 'proof', 'Every operator and elementary function of AFloat<S> is proved to return the plain operation on its operands\' values, for all operands, recordings and types S. Float operations of S are uninterpreted functions; locks and the registry are unconstrained.'),
 'C02': (V + ' (floats as reals)', 'proof', 'The derivative part of every elementary operation is proved equal to a calculus table applied to the operands, with definedness (no NaN, no division by zero) tracked. Machine floats are treated as reals, so rounding is outside the proof.'),
 'C03': (V + ' (floats as reals)', 'proof', 'Value and derivative of each derived function are proved from the contracts of the elementary operations, over the reals with the listed axioms on powers, roots and logarithms. Rounding is outside the proof.'),
    'C04': (V + ' (floats opaque, exact)', 'proof', 'Every accessor, predicate, comparison, conversion, constant and cast is proved equal to the same operation on the value; the unsupported operations are proved never to return. Float operations of S are uninterpreted functions.'),
    'C05': (V + ' (floats opaque for the elementary operations, reals for the derived ones)', 'proof', 'For each operation on numbers of a live recording, the slot of the result is proved to have, in every run of the recorded program, the value of the same operation on the values of its operands, constants captured at their value; declarations append independents and dependents in order. That a replay is such a run is a lemma over the contracts of C08. Other threads are modelled by rely/guarantee conditions at the locks.'),
    'C06': (V + ' with rely/guarantee conditions at the locks', 'proof', 'Well-formedness is a lock invariant: every unlock of a recording is proved to hand back a well-formed recording that extends the one it received, for arbitrary interference of other threads that does the same; a tape taken under the lock is proved well formed. The interleaving argument itself is the rely/guarantee rule and is trusted.'),
    'C07': (V + ' with rely/guarantee conditions at the locks', 'proof', 'Fresh identities, resolution while a handle is kept and not afterwards, removal of the registry entry, writes only to the recording of the operands, plain results on leftovers, and rejection of mixed operands are proved for every state of the registry and interference by other threads. Arc, Weak, Mutex, HashMap and the atomic counter are modelled; fewer than 2^64-1 recordings are assumed.'),
    'C08': (V + ' (floats opaque, exact)', 'proof', 'Replay, dimensions, the reported point and result are proved for every well-formed tape and point against the recursive meaning of the tape; a point of the wrong length is proved never to be accepted nor to reach a write. Float operations are uninterpreted functions; implementors of Tape are assumed to return the tape they hold.'),
    'C09': (V + ' (floats as reals)', 'proof', 'The forward sweep is proved equal to the chain-rule tangent of the tape for every well-formed tape and direction; linearity and uniqueness are lemmas over that tangent. Rounding is outside the proof.'),
    'C10': (V + ' (floats as reals)', 'proof', 'The reverse sweep is proved to compute the adjoint of the tape, the adjoint identity with the tangent is a lemma over all directions, and a tape with an absolute value is proved never to be accepted. Rounding is outside the proof.'),
    'C11': (V + ' (floats as reals)', 'proof', 'Every entry of the forward and the reverse Jacobian is proved equal to the tangent of the recorded tape in a unit direction, and the two matrices equal to each other; size rejection is proved. Rayon reductions are proved by a leaf and a combination obligation over arbitrary splits. Rounding is outside the proof.'),
    'C12': (V + ' (floats as reals)', 'proof', 'abs_normal is proved, from the operator contracts of C13, to return matrices of the stated sizes whose entries are the partial derivatives and offsets a = z - L|z|, b = -Y|z|; strict lower triangularity, unique solvability and equality with the forward sweep in every direction are lemmas over the tape semantics of C09. Machine floats are treated as reals.'),
    'C13': (V + ' (floats as reals)', 'proof', 'Each operator is proved to multiply by the Jacobian of its sub-tape, from either side and for every operand, with sizes, rows, columns and the rejection of wrong sizes; the sub-tapes are proved to be what the constructors select. Rayon reductions are proved by a leaf and a combination obligation. Rounding is outside the proof.'),
       'C14': (V + ' (floats as reals)', 'proof', 'generalized_jacobian_tape is proved, from the operator contracts of C13, to return J + Y S (I - L S)^-1 Z and b + Y S (I - L S)^-1 a row by row, the inverse as the unique solution of the triangular system; signs, sign bits and multiplicity exactly, and composition with a following Jacobian as a lemma. Both iterations are proved to reach their fixed points, with and without the early exit. Machine floats are treated as reals.'),
    'C15': (V + ' (floats opaque, exact)', 'proof', 'generalized_jacobian_chain is proved, from the contracts of C14, C16 and C19, to return the back-to-front composition of the single functions\' generalized Jacobians at the intermediate points and directions, for every chain, nesting, point, direction and every admissible number of checkpoints or none: its three closures are proved to preserve the invariants of the reversal. The proofs of C16 and C19 are redone with it. generalized_jacobian is taken as a function of its arguments.'),
    'C16': (V + ' (states and results abstract)', 'proof', 'reverse_sequence is proved to return what the naive reversal returns, with one reverse call per state, for all states, steps, step functions, nsteps + 1 < 2^32 and ncheckpoints >= 2, and never to panic; fewer than two checkpoints are proved rejected. That the starting estimate of find_t, computed in floating point, never exceeds the answer (an assertion there) is assumed in the proof and explored by a bounded search.'),
    'C17': (V + ' (states and results abstract)', 'proof', 'Every point at which the container of stored states grows or reserves memory is proved to respect ncheckpoints and nsteps + 1, for nsteps + 1 < 2^32. The floating-point estimate of find_t is assumed as in C16.'),
    'C18': (V + ' (states and results abstract)', 'proof', 'The number of forward steps is proved equal to a closed form, and that form proved to be a lower bound on the cost of every plan of placing checkpoints, by lemmas over binomial coefficients; with a slot for every state it is nsteps. The floating-point estimate of find_t is assumed as in C16.'),
    'C19': (V + ' (parts and numbers abstract)', 'proof', 'Construction, appending, evaluation, iteration, length and indexed access of FunctionChain are proved, for every chain and nesting, against the composition and the flattening of its parts; wrong sizes and indices are proved rejected. What a part computes is an arbitrary function with arbitrary effects; that a chain does not contain itself is assumed.'),
    'C20': (V + ' (floats and closures opaque, exact)', 'proof', 'That tape() records exactly the call of the function (fresh recording, inputs declared in order, results declared in order, the current recording left as before), that evaluate on plain numbers is the call itself, and that objects built from closures behave as the closure, are proved for every function and point. The macro is proved on instances in /verif/probe with opaque bodies and sizes: right sizes accepted and wrong sizes rejected, on every path of the body.'),
    'C21': ('contract-based deductive verification: Verus obligations generated from clang\'s syntax tree of the C++ classes and from the compiler\'s THIR of the extern "C" functions', 'proof', 'Every special member and operation of the C++ classes is proved, for every heap of class objects and every operand (self-assignment included), to keep exactly one owner for each underlying object, to release exactly what it must, to leave other objects alone, and to ask the core for exactly its operation on its operands in order. The extern "C" functions are proved to do exactly one operation of the core and to hand out or take back exactly one box. The C++ reading assumes extern "C" stand-ins with the behaviour proved on the Rust side.'),
}
NA = {}
TODO = 'no check registered yet; work in progress'
def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='python3 vc/setup.py', checks=[], not_applicable=[], notes='Each check extracts the THIR of /repo on every run, generates Verus obligations from it, and runs a bounded witness search on the real code beside the proof (labelled bounded in the evidence).')
    for p in props:
        if p in CLAIMED:
            t, l, n = CLAIMED[p]
            m['checks'].append(dict(property=p, quick_cmd=f'python3 vc/check.py {p} quick', thorough_cmd=f'python3 vc/check.py {p} thorough', technique=t, level=l, level_note=n))
        else: m['not_applicable'].append(dict(property=p, reason=NA.get(p, TODO)))
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
main()
