#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Elementary operations return the value of the plain-number operation",
 "Every elementary operation on active numbers (+ - * / with an active number or an f64 on either side, the four compound-assignment forms, sin, cos, tan, abs, exp, ln, asin, acos, atan, powf) has exactly the value the same operation has on the underlying plain numbers, operands in the written order. This holds whatever derivatives the operands carry and whether or not they belong to a recording.",
 ["inputs"], "all operand values, all derivative parts, recorded or not, f32/f64 or nested scalar types",
 "The tests evaluate one polynomial-like function at one point and unary functions at ten points; mixed operand orders, compound forms and recorded/unrecorded mixtures are not sampled.",
 ["src/operation.rs", "src/afloat.rs"],
 [("zero_order_value", "src/operation.rs"), ("from_op and the operator/Float impls of AFloat", "src/afloat.rs")],
 ["AFloat::value()"])
prop("C02", "Each elementary operation propagates the exact forward derivative",
 "The derivative part of the result of every elementary operation is the exact differential of that operation at the operands' values applied to the operands' derivatives, wherever the operation is differentiable; for the absolute value it is the increment |v+dv|-|v| of the piecewise linearization. An operand whose derivative is zero contributes exactly nothing, so powers with a constant exponent (including exponent zero, a zero base, or a negative base with an integer exponent) and with a constant base have finite, correct derivatives.",
 ["inputs"], "all operand values inside the operation's domain and all derivative directions",
 "The tests compare a handful of sample points and one assertion lacks an absolute value; corner operands (negative base, zero exponent, both operands active) are never reached.",
 ["src/operation.rs", "src/afloat.rs"],
 [("first_order_value", "src/operation.rs"), ("AFloat::from_op", "src/afloat.rs")], ["AFloat::dvalue()"])
prop("C03", "Derived functions have the right value and derivative",
 "The functions built from elementary operations (negation, mul_add, recip, powi, sqrt, exp2, log, log2, log10, max, min, abs_sub, cbrt, hypot, sin_cos) return, in exact arithmetic, the value the same function has on plain numbers and the corresponding derivative (for max, min and abs_sub the piecewise-linear increment), for all arguments in the domain.",
 ["inputs"], "all arguments in each function's domain, all derivative directions, both arguments active or constant",
 "Only max, sqrt and negation are exercised, at a few points and only on value; argument order and derivative of the others are untested.",
 ["src/afloat.rs"], [("impl Float for AFloat, impl Neg", "src/afloat.rs")], ["AFloat::value()", "AFloat::dvalue()"])
prop("C04", "Active numbers are transparent in the numeric interfaces",
 "Comparisons, classification predicates, numeric conversions and the constants of the numeric interface depend only on the value and agree with the underlying number type, constants and converted numbers carry derivative zero and belong to no recording, and casting between precisions keeps value, derivative and recording membership. Operations the library does not support panic instead of returning a number.",
 ["inputs"], "all values, derivative parts and recording memberships",
 "No test compares, converts or casts active numbers or asks for numeric constants.",
 ["src/afloat.rs", "src/scalar.rs"],
 [("PartialEq/PartialOrd/ToPrimitive/NumCast/Zero/One/Num/Float constants and passthroughs", "src/afloat.rs"), ("AFloat::cast", "src/afloat.rs")],
 ["AFloat::value()", "AFloat::dvalue()", "comparison results"])
prop("C05", "A recording replays to the program it recorded",
 "Every operation performed on a number that belongs to a live recording is appended to it, so that replaying the recording with any new independent values yields for each recorded number what the straight-line program would compute on those values. Operands and dependents that do not belong to a recording are captured as constants with their value at that moment, and operand order and operation kind are preserved.",
 ["programs", "inputs"], "all straight-line programs over the supported operations, all mixtures of recorded, constant and unrecorded operands, all replay points",
 "Tests check three hand-written one-operation recordings and one replay; other operations, deeper programs, constant capture by dependents and different replay points are not reached.",
 ["src/afloat.rs", "src/acontext.rs", "src/operation.rs"],
 [("AFloat::from_op", "src/afloat.rs"), ("AContext::record / set_indep / set_dep", "src/acontext.rs"), ("Operation::zero_order", "src/operation.rs")],
 ["AContext::tape()", "Tape::zero_order / y"])
prop("C06", "Recordings are always well formed",
 "In every recording and every trace taken from it, each value slot is written by exactly one independent declaration or one operation, slots are numbered in order of creation, each operation reads only slots created before its own, and independents and dependents refer to existing slots. This holds after any sequence of operations and under any interleaving of threads recording into the same or different recordings, and also for a trace taken while another thread is recording.",
 ["histories", "schedules"], "all histories of declarations and operations and all thread interleavings",
 "Tests are single threaded and record at most a handful of operations in one order.",
 ["src/acontext.rs", "src/afloat.rs"],
 [("slot number taken and value pushed under one lock", "src/acontext.rs record/set_indep/set_dep"), ("order of the snapshots in tape()", "src/acontext.rs")],
 ["AContext::operations/values/indeps/deps", "AContext::tape()"],
 [("AContextInner", "trace state behind the mutex", "src/acontext.rs")])
prop("C07", "Recordings are isolated and end with their owner",
 "Every recording has an identity no other recording ever had, an operation records only into the recording its operands belong to, and combining numbers of two different recordings or declaring a foreign number dependent panics. Once the last handle of a recording is gone its identity resolves to nothing and no registry entry remains, operations on its leftover numbers still compute value and derivative but record nowhere, and independent recordings live at the same time never affect each other.",
 ["histories", "schedules"], "all orders of creating, using, sharing and dropping recordings, on any number of threads",
 "One test creates and drops a single recording; mixing, leftovers, several live recordings and concurrent creation are never exercised.",
 ["src/acontext.rs", "src/afloat.rs"],
 [("CONTEXT_MAP / NEXT_CONTEXT_ID / Drop", "src/acontext.rs"), ("context resolution and assert in from_op", "src/afloat.rs"), ("assert in set_dep", "src/acontext.rs")],
 ["AContext::from_cid", "AContext::operations", "panics"],
 [("CONTEXT_MAP", "weak registry of live recordings", "src/acontext.rs")])
prop("C08", "Replaying a tape evaluates it at the given point",
 "Re-evaluating a tape at a point stores in every value slot the value of the recorded program at that point and leaves constants unchanged, after which the reported point and result are exactly the given point and the program's result there, in declaration order. The tape's dimensions are the numbers of declared independents and dependents, its absolute-value count is the number of recorded absolute values, and a point of the wrong length is rejected with a panic before anything changes.",
 ["inputs", "programs"], "all well-formed tapes (including repeated dependents and dependents that are independents or constants) and all points; repeated replays",
 "Tests replay one scalar tape once; multi-dimensional points, repeated replays, constants and rejected dimensions are not covered.",
 ["src/tape.rs", "src/operation.rs"],
 [("Tape::zero_order / x / y / num_*", "src/tape.rs"), ("Operation::zero_order", "src/operation.rs")], ["Tape::x", "Tape::y", "Tape::values"])
prop("C09", "The tape's forward sweep is the directional derivative",
 "For every tape and direction the forward sweep returns the derivative of the recorded program at the current point in that direction by the chain rule (with absolute values contributing their piecewise-linear increment); it equals the derivative obtained by running the program itself on numbers carrying that direction. Without absolute values on the tape the result is linear in the direction; the sweep does not change the tape.",
 ["inputs", "programs"], "all well-formed tapes, points and directions",
 "Tests check scalar tapes with direction 1 only.",
 ["src/tape.rs", "src/operation.rs"],
 [("Tape::first_order_forward", "src/tape.rs"), ("Operation::first_order, first_order_value", "src/operation.rs")], ["Tape::first_order_forward"])
prop("C10", "The tape's reverse sweep is the adjoint of the forward sweep",
 "For every tape without absolute values, point, direction and weight vector, the reverse sweep's result paired with the direction equals the weight vector paired with the forward sweep's result, including when several dependents are the same value, a dependent is an independent or a constant, or a value is used more than once. A tape containing an absolute value is rejected with a panic instead of returning a derivative; the sweep does not change the tape.",
 ["inputs", "programs"], "all well-formed abs-free tapes, points where all operations are differentiable, all directions and weights",
 "Tests use scalar tapes and one 2x2 Jacobian; shared values, repeated dependents and products of several dependents are not reached.",
 ["src/tape.rs", "src/operation.rs"],
 [("Tape::first_order_reverse", "src/tape.rs"), ("Operation::first_order_reverse", "src/operation.rs")], ["Tape::first_order_reverse", "panics"])
prop("C11", "Jacobian drivers assemble the exact Jacobian",
 "The forward Jacobian driver returns the matrix with one row per output and one column per input whose entries are the partial derivatives of the function at the given point, and the reverse driver returns the same matrix from a tape; both agree for every function and point without absolute values. The result does not depend on the number of worker threads or the order in which columns or rows finish, and a point of the wrong length is rejected.",
 ["inputs", "programs", "schedules"], "all functions, points, input/output dimensions (rectangular, single, zero outputs) and thread schedules",
 "Tests check one square 2x2 function at one point.",
 ["src/drivers/jacobian.rs"], [("jacobian_forward", "src/drivers/jacobian.rs"), ("jacobian_reverse", "src/drivers/jacobian.rs")],
 ["return value of the drivers"])
prop("C12", "Abs-normal form represents the piecewise linearization",
 "For every function and point the abs-normal form has s switching equations (one per absolute value), Z is s by n, L is s by s and strictly lower triangular, J is m by n and Y is m by s; they are the partial derivatives of the switching values and outputs with respect to inputs and absolute values, with a = z - L|z| and b = -Y|z| at the point. Consequently solving dz = a + Z dx + L|dz| and evaluating b + J dx + Y|dz| gives for every direction the function's piecewise-linear increment, the same as the forward sweep.",
 ["inputs", "programs"], "all functions with any number and nesting of absolute values (including none), all points and directions, all shapes n, m, s",
 "Tests check one example with s = 2 and small consistency examples; other shapes take different code branches.",
 ["src/drivers/abs_normal.rs"], [("AbsNormalTape::new, x/y/z", "src/drivers/abs_normal.rs"), ("abs_normal", "src/drivers/abs_normal.rs")],
 ["abs_normal()", "AbsNormalTape accessors"])
prop("C13", "Abs-normal matrix operators multiply by the matrix they represent",
 "Each of the four matrix operators of an abs-normal tape behaves as one fixed matrix: multiplying from the right or the left by any conforming matrix gives the matrix product with all columns and rows in place, its rows and columns are those of that matrix, and its reported size is the matrix size. Operands of non-conforming size are rejected with a panic, and results do not depend on thread scheduling.",
 ["inputs", "programs", "schedules"], "all tapes, all conforming right and left factors including non-square and empty, all row and column indices",
 "Tests multiply only identity matrices and one vector; row and column accessors are never called.",
 ["src/drivers/abs_normal.rs"], [("mul_right / mul_left / row / column / nrows / ncols", "src/drivers/abs_normal.rs")],
 ["mul_right", "mul_left", "row", "column"])
prop("C14", "Generalized Jacobian is the selected limiting Jacobian",
 "For every tape, point and direction the generalized Jacobian is J + Y S (I - L S)^-1 Z and its offset is b + Y S (I - L S)^-1 a, where S holds the signs of the switching values of the piecewise linearization in that direction. Each zero switching value takes its sign from the next supplied sign bit (least significant bit of the first byte first, minus when bits run out) and is counted in the multiplicity. With a following generalized Jacobian supplied the result is the composition: its matrix times this one, offsets and multiplicities accumulated.",
 ["inputs", "programs"], "all tapes with any nesting depth of absolute values, all points, directions, sign-bit strings and following Jacobians",
 "Tests use one two-switch example with sign bits zero; deeper dependency between switches, ties with set bits and non-trivial following Jacobians are not reached.",
 ["src/drivers/generalized_jacobian.rs"], [("generalized_jacobian_tape", "src/drivers/generalized_jacobian.rs"), ("bit_iter", "src/drivers/generalized_jacobian.rs")],
 ["GeneralizedJacobian fields"])
prop("C15", "Chained generalized Jacobian does not depend on checkpointing",
 "For every chain of functions, point and direction the chained generalized Jacobian equals the back-to-front composition of the single functions' generalized Jacobians at the intermediate points and directions. The result is the same for every admissible number of checkpoints and when none is given, including chains of a single function and nested chains.",
 ["inputs", "programs", "configurations"], "all chains of any length, points, directions and checkpoint counts of at least two (or default)",
 "One two-element chain is tested with the default checkpoint count.",
 ["src/drivers/generalized_jacobian.rs", "src/drivers/checkpointing.rs"], [("generalized_jacobian_chain", "src/drivers/generalized_jacobian.rs")],
 ["generalized_jacobian_chain"])
prop("C16", "Checkpointed reversal equals naive reversal",
 "Reversing a sequence of steps with checkpoints calls the identity on the final state and then the reverse step on the states in strictly descending order, each on exactly the state the forward step produces for that position, and returns the same result as storing every state. It terminates without panicking for every number of steps and every number of checkpoints of at least two, and rejects fewer than two checkpoints.",
 ["inputs", "configurations"], "all step counts, checkpoint counts and step functions",
 "One pair of (37 steps, 9 checkpoints) with an order-insensitive sum is tested.",
 ["src/drivers/checkpointing.rs"], [("reverse_sequence", "src/drivers/checkpointing.rs"), ("schedule", "src/drivers/checkpointing.rs")],
 ["calls made to the three step functions", "return value"])
prop("C17", "Checkpointed reversal respects the checkpoint budget",
 "At no time does the checkpointed reversal keep more stored states than the requested number of checkpoints, nor reserve storage beyond what the sequence needs. This holds for every sequence length and budget.",
 ["inputs", "configurations"], "all step counts and checkpoint budgets",
 "No test observes how many states are stored.",
 ["src/drivers/checkpointing.rs"], [("reverse_sequence", "src/drivers/checkpointing.rs"), ("schedule", "src/drivers/checkpointing.rs")],
 ["number of live clones of the state"])
prop("C18", "Checkpoint placement is optimal",
 "The number of forward steps the checkpointed reversal executes is the minimum possible for the given number of steps and checkpoints (binomial checkpointing). With at least as many checkpoints as states, every step is executed exactly once.",
 ["inputs", "configurations"], "all step counts and checkpoint budgets",
 "Tests pin a few schedules as literals; optimality is not checked and any other length or budget is not sampled.",
 ["src/drivers/checkpointing.rs"], [("beta / find_t / next_checkpoint / schedule", "src/drivers/checkpointing.rs")],
 ["number of forward calls"])
prop("C19", "Function chains behave as the composition of their parts",
 "Evaluating a chain evaluates its parts in the order they were appended, each on the previous result, and the chain's input and output sizes are those of its first and last part. Appending a part whose input size differs from the chain's output size is rejected; nested chains appear flattened, in order, in iteration, length and indexed access.",
 ["programs", "inputs"], "all chains including nested ones, all appended parts, all indices",
 "Tests use flat chains of three linear maps.",
 ["src/function.rs"], [("FunctionChain", "src/function.rs")], ["FunctionChain::eval/len/nth/iter/n/m", "panics"])
prop("C20", "Function objects evaluate, differentiate and record consistently",
 "A function object built from a generic function reports its declared sizes, evaluates on plain numbers to the function's values, and produces at any point a tape with one independent per input and one dependent per output, in order, whose point and result are that point and the function's value there. Extra arguments are captured by the object, and inputs or results of a size other than declared are rejected with a panic.",
 ["programs", "inputs"], "all functions written through the function macro (both argument forms, extra arguments, size expressions) and all points",
 "Tests check sizes and a few values; mismatched sizes and tape contents at arbitrary points are not covered.",
 ["src/function.rs", "src/macros.rs"], [("Function::eval_float / tape", "src/function.rs"), ("adv_fn!, adv_fn_obj!", "src/macros.rs")],
 ["Function::eval_float", "Function::tape", "panics"])
prop("C21", "The C++ interface is a faithful, memory-safe wrapper",
 "Every operation of the C++ classes performs exactly the corresponding operation of the core library on the same operands in the same order, including those with a plain number on the left. For every sequence of constructions, copies, moves (including self-assignment), assignments and destructions, each underlying object is released exactly once and never used after release, and a copied number equals its source.",
 ["histories", "inputs"], "all sequences of C++ object operations and all operand values",
 "The C++ tests are not part of the reliable suite and check a few sums.",
 ["src/cxx/ADouble.cpp", "src/cxx/AContext.cpp", "src/cxx/ffi.hpp", "src/ffi.rs"],
 [("ADouble/AContext special members and operators", "src/cxx"), ("extern \"C\" functions", "src/ffi.rs")],
 ["values of dependents", "allocation/free pairing"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
