//! C13: text rows decode to the values the server sent.
use mc::{stored, Level};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

fn main() {
    mc::main(
        "C13",
        Level {
            level: "exploration",
            rule: "every row of every enumerated result set is sent by a reference server in the text protocol and read by the real \
                   client; each value returned is compared (bit for bit) with the one the server encoded",
            assumptions: &[
                "the encoders of the reference server follow the protocol's documentation",
                "values between the enumerated ones behave like them",
            ],
        },
        |run| stored::explore(run, false),
    );
}
