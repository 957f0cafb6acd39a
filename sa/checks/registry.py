from checks import paths, logck, effects, fmt, recursion
TECH = {
 'C01': 'path-sensitive ownership typestate with function summaries over LLVM IR',
 'C02': 'path-sensitive ownership typestate with function summaries over LLVM IR',
 'C05': 'path-sensitive null-argument dataflow with function summaries over LLVM IR',
 'C23': 'path-sensitive initialisation dataflow with function summaries over LLVM IR',
}
NOTE = {}
TECH['C03'] = 'path-sensitive allocation-failure and nullness dataflow with function summaries over LLVM IR'
TECH['C08'] = 'path-sensitive I/O-failure dataflow with function summaries over LLVM IR'
TECH['C06'] = 'path-sensitive failure-propagation dataflow with function summaries over LLVM IR'
CHECKS = {'C01': paths.c01, 'C02': paths.c02, 'C05': paths.c05, 'C23': paths.c23, 'C03': paths.c03, 'C06': paths.c06, 'C08': paths.c08}
TECH['C10'] = 'path-sensitive errno dataflow over LLVM IR'; CHECKS['C10'] = logck.c10
TECH['C11'] = 'lock typestate with function summaries over LLVM IR'; CHECKS['C11'] = logck.c11
TECH['C24'] = 'interprocedural write-effect analysis of globals over LLVM IR'; CHECKS['C24'] = effects.c24
TECH['C25'] = 'effect analysis of platform calls over the resolved call graph'; CHECKS['C25'] = effects.c25
TECH['C04'] = 'call-routing effect analysis plus ownership-family typestate over LLVM IR'; CHECKS['C04'] = effects.c04
TECH['C26'] = 'format-string provenance and argument-type dataflow plus va_list typestate over LLVM IR'; CHECKS['C26'] = fmt.c26
TECH['C15'] = 'call-graph cycle analysis with path-sensitive guard dataflow over LLVM IR'; CHECKS['C15'] = recursion.c15
from checks import pwdck
TECH['C22'] = 'path-sensitive provenance and comparison typestate over LLVM IR with static helpers inlined'; CHECKS['C22'] = pwdck.c22
from checks import netck
TECH['C28'] = 'call-order typestate and option-bit dataflow over LLVM IR with static helpers inlined'; CHECKS['C28'] = netck.c28
from checks import urick
TECH['C27'] = 'path-sensitive emission-sequence dataflow matched against a grammar, over LLVM IR with static helpers inlined'; CHECKS['C27'] = urick.c27
from checks import numck
TECH['C17'] = 'abstract interpretation in a linear-inequality domain with object invariants over LLVM IR'; CHECKS['C17'] = numck.c17
TECH['C30'] = TECH['C17']; CHECKS['C30'] = numck.c30
TECH['C14'] = TECH['C17']; CHECKS['C14'] = numck.c14
NUM = 'Sound over-approximation in the linear-inequality domain: every argument value and every history of operations is covered through the object invariant (assumed on entry, shown on exit); relative to the models of platform functions and to non-overlapping objects.'
for _k in ('C14', 'C17', 'C30'): NOTE[_k] = NUM
TECH['C18'] = TECH['C17']; CHECKS['C18'] = numck.c18; NOTE['C18'] = NUM

from checks import ctorck
TECH['C07'] = 'path-sensitive result-pointer typestate over LLVM IR'; CHECKS['C07'] = ctorck.c07
TECH['C13'] = TECH['C17'] + '; failure propagation dataflow for refused matches'; CHECKS['C13'] = numck.c13; NOTE['C13'] = NUM
from checks import b64ck
TECH['C16'] = 'bit-provenance and finite-domain abstract interpretation of the codec, plus ' + TECH['C17']; CHECKS['C16'] = b64ck.c16; NOTE['C16'] = NUM
from checks import intrck
TECH['C09'] = TECH['C17'] + ', with ghost state for the outcome of system calls'; CHECKS['C09'] = intrck.c09; NOTE['C09'] = NUM
from checks import dispck
TECH['C21'] = 'switch coverage over the syntax tree plus abstract interpretation with the kind fixed to each declared value'; CHECKS['C21'] = dispck.c21
from checks import cntck
TECH['C19'] = 'abstract interpretation with a ghost count of link and unlink stores; inductive size accounting for trees'; CHECKS['C19'] = cntck.c19; NOTE['C19'] = NUM
from checks import hmapck
TECH['C20'] = 'abstract interpretation with ghost counts of links, queue entries and releases, per policy and option'; CHECKS['C20'] = hmapck.c20; NOTE['C20'] = NUM

from checks import bufck
TECH['C12'] = 'abstract interpretation (linear facts, loop invariants) of every function from an arbitrary state: stores and bounded calls into fixed-size buffers'; CHECKS['C12'] = bufck.c12; NOTE['C12'] = NUM

from checks import loopck
TECH['C29'] = 'progress analysis: search for a cycle of trips without progress over loop bodies in LLVM IR, with exit slices and member effects of callees'; CHECKS['C29'] = loopck.c29
NOTE['C29'] = 'The search covers every loop with the branch facts it can follow; that a callee may write a member counts as progress there. The loops over lexer text and the growth loops are shown to advance strictly (sound relative to the models).'
