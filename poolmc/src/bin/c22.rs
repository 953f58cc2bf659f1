//! C22, see DESIGN.md.
#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

fn main() {
    mc::main(
        "C22",
        mc::Level {
            level: "model_checking",
            rule: "the real pool runs on coroutines under a scheduler that takes every order of the operations on shared data within a bound \
                   on preemptions; a ledger of items is compared at every step; buffers are followed through all sequences of gets and returns",
            assumptions: &[
                "operations on queues and atomics are linearizable and sequentially consistent, as their documentation says",
                "two to four threads and pools of up to three items stand for more",
            ],
        },
        |run| poolmc::synchronous::spaces(run),
    )
}
