//! C20, see DESIGN.md.
#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

fn main() {
    mc::main(
        "C20",
        mc::Level {
            level: "model_checking",
            rule: "the real pool runs on coroutines under a scheduler that takes every order of the operations on shared data within a bound \
                   on preemptions; a ledger of items is compared at every step, waiting threads run only when they are woken, and at the end \
                   the whole capacity is obtained",
            assumptions: &[
                "operations on queues and atomics are linearizable and sequentially consistent, as their documentation says",
                "two or three (thorough: four) threads and pools of up to three items stand for more",
            ],
        },
        |run| poolmc::asynchronous::spaces(run, "C20"),
    )
}
