MORE = {
    "C17": ("exhaustive walks over the state space of operation histories, executed on the real library by an interpreter that checks every memory access (Miri)",
        "Walks generated from the explicit-state search perform every enabled operation in every reachable state within the bounds (items, live handles, operations, item types); Miri with Tree Borrows is the monitor. "
        "Trusts Miri's idea of undefined behaviour and that small bounds show the defect; single-threaded, as the concurrent checks look for races."),
    "C18": ("explicit-state search over histories of library calls, moves and loans between two virtual threads that the compiled markers permit, every transition executed on the real library",
        "For items of each kind (may be sent or not, shared or not) every history within the bounds that the Send and Sync markers of the compiled types permit is run on the real library, with the items watching where they're destroyed, moved out, mutable and within reach; each marker withheld is judged by what granting it would lead to. "
        "Trusts the judgement of which reach is harmful, and that markers depend on nothing but whether the items are Send and Sync (25 item types are probed)."),
}
