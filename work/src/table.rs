use crate::engine::PropInfo;
use crate::{stack, work};

const STACK_RULE: &str = "Each case is one operation on one input of an enumerated family (shapes, run outlines, index lists, every variant of an adaptive adversary); the lowest stack address of all basic blocks executed is measured. Counted as distinct: different (length, blocks executed, stack used).";
const WORK_RULE: &str = "Each case is one operation on one input of an enumerated family (shapes, run outlines, index lists, repeats, permutation cycles, every variant of an adaptive adversary); every basic block executed and every 32 bytes copied are counted. Counted as distinct: different (length, blocks executed).";
const A_BOUND: &str = "exhaustive within the enumerated families only; inputs outside them are not covered";
const A_BUILD: &str = "measured on the optimised build of the stable toolchain with debug assertions; one worker for parallel operations";
const A_CONST: &str = "constants of the bounds are chosen at several times the largest count measured, below what the next complexity class needs at the sizes used";

pub fn table() -> Vec<PropInfo> {
    vec![
        PropInfo { id: "C26", level: "exploration", rule: STACK_RULE, assumptions: &[A_BOUND, A_BUILD, A_CONST], body: stack::c26 },
        PropInfo { id: "C27", level: "exploration", rule: WORK_RULE, assumptions: &[A_BOUND, A_BUILD, A_CONST], body: work::c27 },
    ]
}
