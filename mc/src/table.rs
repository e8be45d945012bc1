use crate::cost;
use crate::engine::PropInfo;
use crate::fault;
use crate::keys;
use crate::par;
use crate::place;
use crate::query;
use crate::seq;
use crate::small;
use crate::span;
use crate::wild;

const SEQ_RULE: &str = "Each case is one input of an exhaustively enumerated bounded family (all weak orders up to a length, all binary/ternary words, every single move of a base shape, run sequences, step shapes around block lengths, inputs built by an adaptive adversary); the real operation runs on it. Counted as distinct and non-trivial: the number of different sequences of callback invocations (element identities in order) observed.";

const PAR_RULE: &str = "Each case runs one input of an enumerated family under the controlled scheduler: the default schedule of each listed policy and worker count, and in the deviation sections every schedule that departs from it at most the stated number of times at the recorded scheduling points (fork, join, and every stride-th callback). states/transitions: nodes/edges of the schedule tree visited. Counted as distinct: different (schedule, callback sequence) fingerprints.";

const FAULT_RULE: &str = "Each case is one operation on one input of an enumerated family; after a clean run that counts its callbacks, the operation is repeated once per listed callback with a panic injected there (every callback, or every residue class as stated). Counted as distinct: different (fault position, callback sequence) fingerprints.";

const WILD_RULE: &str = "Each case is one operation with the comparator as nondeterministic environment: every answer sequence (depth-first over the answer tree) for small arrays, every answer prefix followed by a fixed policy, every periodic answer word, every one or two flipped answers of an order, every relation on few elements. Counted as distinct: different sequences of callback invocations.";

const PLACE_RULE: &str = "Each case is one operation on one input of an enumerated family, executed once on a contiguous array and once per circumstance (layout, storage, lane of an n-dimensional array, index array layout, address, key values, thread, pool, schedule); all executions must leave the same arrangement and results. Counted as distinct: different (circumstance, callback sequence) fingerprints.";

const QUERY_RULE: &str = "Each case is one array of an enumerated family (or one length with every partition of it, every answer sequence, every place of the odd one out) with every form, target and layout listed; the real operation runs on it and its result is compared with the definition. Counted as distinct: different sequences of callback invocations (for element types without callbacks: different inputs).";

const COST_RULE: &str = "Each case is one operation on one input of an enumerated family (shapes, run stacks, every variant of an adaptive adversary that decides answers against the running operation, alone and with the rest in every shape); its comparator calls are counted. Counted as distinct: different sequences of callback invocations.";

const MEM_RULE: &str = "Each case is one operation on one input of an enumerated family under a checking allocator (red zones, layouts, live bytes of the window around the call), repeated with a panic at every listed callback or with each of its allocations failing. Counted as distinct: different (fault, callback sequence) fingerprints.";

const CACHED_RULE: &str = "Each case is one input of an enumerated family (all weak orders and permutations up to a length, shapes at every length around the index widths) sorted by cached keys of every listed key type, the parallel form under the default schedule of each listed policy or every schedule within the stated deviations. Counted as distinct: different sequences of callback invocations.";

const DEGENERATE_RULE: &str = "Each case is one length of zero-sized elements with one way their comparisons answer, or one array of at most three elements, with every operation and argument listed. Counted as distinct: different (operation, length, answers, layout, number of callbacks) fingerprints.";

const HISTORY_RULE: &str = "Each case is one initial array and one first operation with every continuation of the stated depth; one array goes through each history and is compared after every step with the transition taken by a fresh array in the same state, and with the operation's contract. Beyond one array, each case is a pair of operations (nested in callbacks, cut short, in turn, at once under every schedule within the deviation bound), each compared with the same operation alone on a fresh thread. states/transitions: distinct arrangements and fresh transitions of the model. Counted as distinct: different (state, operation, callback sequence) fingerprints.";

const KEYS_RULE: &str = "Each case is one operation by keys on one input of an enumerated family (parallel ones under the default schedule of a listed policy); after a clean run that counts its events (key function called, keys compared, key dropped), the operation is repeated once per listed event with a panic injected there. Counted as distinct: different sequences of events and schedules.";

const SPAN_RULE: &str = "Each case is one parallel operation on one input of an enumerated family, under a greedy simulated-time schedule for each number of workers and choice of slow ones: the time until the operation returns against all callbacks. states/transitions: executions. Counted as distinct: different sequences of callback invocations.";

const A_CONST: &str = "constants of the bounds are chosen at several times the largest count measured, below what the next complexity class needs at the sizes used";

const A_BOUND: &str = "exhaustive within the enumerated families only; inputs outside them are not covered";
const A_BUILD: &str = "debug assertions and overflow checks on, optimised build of the crate from /repo";

const A_SCHED: &str = "the controlled scheduler replaces rayon-core's (same API, same stealing rules); sequentially consistent execution between scheduling points; preemption only at fork, join and every stride-th callback";

pub fn table() -> Vec<PropInfo> {
    vec![
        PropInfo { id: "C01", level: "exploration", rule: SEQ_RULE, assumptions: &[A_BOUND, A_BUILD], body: seq::c01 },
        PropInfo { id: "C02", level: "exploration", rule: SEQ_RULE, assumptions: &[A_BOUND, A_BUILD], body: seq::c02 },
        PropInfo { id: "C03", level: "model_checking", rule: CACHED_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: small::c03 },
        PropInfo { id: "C04", level: "exploration", rule: SEQ_RULE, assumptions: &[A_BOUND, A_BUILD], body: seq::c04 },
        PropInfo { id: "C05", level: "exploration", rule: SEQ_RULE, assumptions: &[A_BOUND, A_BUILD], body: seq::c05 },
        PropInfo { id: "C06", level: "model_checking", rule: PAR_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: par::c06 },
        PropInfo { id: "C07", level: "model_checking", rule: PAR_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: par::c07 },
        PropInfo { id: "C08", level: "model_checking", rule: PAR_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: par::c08 },
        PropInfo { id: "C24", level: "model_checking", rule: PAR_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: par::c24 },
        PropInfo { id: "C09", level: "fault_enumeration", rule: FAULT_RULE, assumptions: &[A_BOUND, A_BUILD], body: fault::c09 },
        PropInfo { id: "C10", level: "fault_enumeration", rule: FAULT_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: fault::c10 },
        PropInfo { id: "C13", level: "fault_enumeration", rule: FAULT_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: fault::c13 },
        PropInfo { id: "C11", level: "exploration", rule: WILD_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: wild::c11 },
        PropInfo { id: "C12", level: "exploration", rule: PLACE_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: place::c12 },
        PropInfo { id: "C14", level: "exploration", rule: QUERY_RULE, assumptions: &[A_BOUND, A_BUILD], body: query::c14 },
        PropInfo { id: "C15", level: "exploration", rule: QUERY_RULE, assumptions: &[A_BOUND, A_BUILD], body: query::c15 },
        PropInfo { id: "C16", level: "exploration", rule: QUERY_RULE, assumptions: &[A_BOUND, A_BUILD], body: query::c16 },
        PropInfo { id: "C17", level: "exploration", rule: QUERY_RULE, assumptions: &[A_BOUND, A_BUILD], body: query::c17 },
        PropInfo { id: "C18", level: "exploration", rule: COST_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED, A_CONST], body: cost::c18 },
        PropInfo { id: "C19", level: "exploration", rule: COST_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED, A_CONST], body: cost::c19 },
        PropInfo { id: "C20", level: "fault_enumeration", rule: MEM_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: cost::c20 },
        PropInfo { id: "C23", level: "exploration", rule: DEGENERATE_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: small::c23 },
        PropInfo { id: "C25", level: "model_checking", rule: HISTORY_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: small::c25 },
        PropInfo { id: "C29", level: "model_checking", rule: KEYS_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: keys::c29 },
        PropInfo { id: "C28", level: "exploration", rule: SPAN_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED, A_CONST], body: span::c28 },
        PropInfo { id: "C21", level: "model_checking", rule: PLACE_RULE, assumptions: &[A_BOUND, A_BUILD, A_SCHED], body: place::c21 },
    ]
}
