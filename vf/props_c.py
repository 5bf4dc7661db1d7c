from vf.base import *  # noqa

TSAN = ["-fsanitize=thread", "-DMUU_VERIF_SPIN_WAIT_ITERATIONS=1", "-DMUU_PAUSE()=mc_pause()", "-include",
        VERIF + "/mc/mc.h"]


def mcjob(src, pid, shards=8, tag=""):
    return Job("mc_" + pid + tag, [src, "mc/mc.cpp"], opt="-O1", flags=TSAN,
               lib=["thread_pool.cpp", "string_param.cpp", "thread_name.cpp"], shards=shards, args=[pid],
               srcflags={"mc/mc.cpp": ["-std=c++20", "-O2", "-g0", "-w", "-I" + VERIF + "/h", "-I" + VERIF + "/mc"]},
               link=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"])


ASSUME = ["sequentially consistent memory: weaker-than-SC outcomes are only covered through the happens-before race "
          "detector, which honours the memory orders written in the code",
          "spin phases are shortened by the guarded MUU_VERIF_SPIN_WAIT_ITERATIONS hook (same algorithm, fewer rounds)",
          "closed programs of 1-3 workers and up to 3 client threads, 1-9 tasks; deviation bound per program in the "
          "evidence samples",
          "condition variables, mutexes, clocks, thread creation and the heap are the engine's own implementations of "
          "the pthread/libc interfaces; virtual time"]
TP = ["src/thread_pool.cpp", "include/muu/thread_pool.h"]

prop("C01", "Every enqueued task runs exactly once, on a valid worker",
     "Every task handed to a thread_pool that is not destroyed first is invoked exactly once, by exactly one worker, "
     "receives a worker index below workers(), and no two tasks run under the same worker index at the same time. An "
     "enqueued task is picked up by an idle worker without waiting for a polling timeout to expire.",
     ["schedules"],
     "every interleaving (preemptions, early timeouts, spurious wakeups within the deviation bound) of 1-3 workers and "
     "1-2 producers, for queue capacities from one slot up, including ring-buffer wrap-around",
     "the tests enqueue a batch and wait on whatever schedule the OS happens to give; lost, duplicated or delayed "
     "tasks need a particular interleaving of the queue's push, steal and blocking pop",
     TP, [("per-worker bounded queues with stealing", "src/thread_pool.cpp thread_pool_queue::try_pop/pop/acquire"),
          ("round-robin queue choice", "src/thread_pool.cpp thread_pool_impl::lock")],
     [mcjob("h/pool.cpp", "C01")], "all schedules to deviation bound 2-4 per closed program", TECHNIQUE_SMC, ASSUME)

prop("C02", "wait() returns only when everything enqueued before it has completed",
     "When wait() returns, every task enqueued before the call has returned and its callable object has been "
     "destroyed, and the effects of those tasks are visible to the caller without further synchronisation. wait() on "
     "an idle pool returns at once, works from several threads concurrently and repeatedly, and always eventually "
     "returns when the tasks are finite.",
     ["schedules"],
     "every interleaving within the deviation bound of one or two waiting threads, 1-2 workers, concurrent producers, "
     "tasks that sleep past the polling interval, and for_each batches",
     "a wait() that returns early is only observable when the waiter is scheduled between a worker's bookkeeping "
     "steps; the tests see one schedule per run and look at results long after",
     TP, [("outstanding-task counter", "src/thread_pool.cpp thread_pool_monitor"),
          ("worker loop: invoke, destroy, decrement", "src/thread_pool.cpp thread_pool_worker")],
     [mcjob("h/pool.cpp", "C02")], "all schedules to deviation bound 2-4 per closed program", TECHNIQUE_SMC, ASSUME)

prop("C03", "Destroying or moving a pool finishes running tasks and leaks nothing",
     "Destroying a thread_pool lets the tasks being executed finish, starts nothing afterwards, destroys every task "
     "that never ran, joins every worker and frees all memory, whatever the workers are doing at that moment. Moving "
     "a pool transfers its workers and pending tasks, leaves the source with zero workers, and the pool overwritten by "
     "a move-assignment is shut down as by its destructor.",
     ["schedules", "histories"],
     "every interleaving within the deviation bound of construction, 0-4 enqueued tasks, move construction, "
     "move assignment (over a live pool, back, self, swap) and destruction at any point",
     "shutdown races a worker between popping, running and blocking; the tests always drain the pool first and never "
     "move one",
     TP, [("shutdown protocol", "src/thread_pool.cpp ~thread_pool_impl, thread_pool_queue::terminate"),
          ("move operations", "include/muu/thread_pool.h thread_pool::operator=")],
     [mcjob("h/pool.cpp", "C03")], "all schedules to deviation bound 2-4 per closed program; leak, double-free and "
     "use-after-free detection on every execution", TECHNIQUE_SMC, ASSUME)

prop("C04", "The pool has the requested size and its queue is bounded back-pressure",
     "workers() is the requested worker count and capacity() is the requested queue size rounded up to a whole number "
     "of tasks per worker. With all workers busy exactly capacity() tasks are accepted without blocking, the next "
     "enqueue waits until a slot is freed, and no accepted task is ever overwritten or lost however often the queue "
     "fills up.",
     ["schedules", "configurations"],
     "all worker counts 1-3 x queue sizes 0-7, and every interleaving within the deviation bound of programs that fill "
     "the queue, block on it and overfill it several times",
     "the tests never fill a queue; the full-queue path retries on spin and sleep phases that need a blocked worker to "
     "be reached at all",
     TP, [("full-queue retry loop", "src/thread_pool.cpp thread_pool_impl::lock repeat_with_delay"),
          ("ring buffer indices", "src/thread_pool.cpp thread_pool_queue front/back")],
     [mcjob("h/pool.cpp", "C04")], "all schedules to deviation bound 1-3", TECHNIQUE_SMC, ASSUME)

prop("C05", "for_each visits every element of a range exactly once",
     "for_each over an integer or enum range runs the task exactly once for every value from start (inclusive) to end "
     "(exclusive), also for empty, reversed and extreme ranges, and over iterators or a collection exactly once per "
     "element, by reference. The batch index passed to the task is below workers(), for every worker count, queue "
     "size and task signature.",
     ["inputs", "configurations", "schedules"],
     "all (start, end) pairs of an 11-value window around zero and of a window at both ends of the type, for 9 integer "
     "and enum types x 1-4 workers x queue sizes 1/4/12 x task arities; 8 collection kinds of 0-11 elements; "
     "plus every schedule of for_each against a competing producer, and of for_each on 1-2 workers (3 in the thorough tier) whose queues (1-2 "
     "slots each) are filled to every level",
     "the tests run a handful of ranges on one pool size; off-by-one batches need a range size that does not divide "
     "evenly, a queue too small for one lock, or values next to the type's limits",
     ["include/muu/thread_pool.h"],
     [("batch splitting", "include/muu/thread_pool.h batch_size_generator, for_each, for_each_with_iterators"),
      ("shared queue lock with fallback", "src/thread_pool.cpp lock_multiple")],
     [mcjob("h/pool2.cpp", "C05"), mcjob("h/pool.cpp", "C05", tag="_prefilled")], "exhaustive over the input windows, schedules to bound 2-3", TECHNIQUE_SMC, ASSUME)

prop("C06", "Concurrent use of a pool is free of races, deadlock and use-after-free",
     "enqueue, for_each, wait, workers and capacity may be called concurrently from any number of non-worker threads, "
     "and several pools may coexist: no data race, deadlock, livelock, double free or access to freed memory occurs in "
     "any schedule, and a task's writes happen-before the waiter's reads.",
     ["schedules"],
     "every interleaving within the deviation bound of 2-3 client threads mixing all operations on 1-2 workers, judged "
     "by a vector-clock race detector over every memory access of the library and a heap oracle",
     "the tests use the pool from a single thread and run without a race detector",
     TP, [("locking discipline", "src/thread_pool.cpp thread_pool_queue, thread_pool_monitor")],
     [mcjob("h/pool.cpp", "C06")], "all schedules to deviation bound 2-4", TECHNIQUE_SMC, ASSUME)

prop("C07", "A pool that fails to construct throws and leaves nothing behind",
     "If creating any worker thread or any allocation fails while a thread_pool is being constructed, the constructor "
     "reports it by throwing, having joined every thread it started and freed everything it allocated; it never hangs, "
     "crashes or leaks.",
     ["fault_sequences", "schedules"],
     "failure of the k-th thread creation and of the k-th heap allocation for every k, for 1-3 workers, over every "
     "schedule of the already started workers within the deviation bound",
     "the tests never see thread creation or allocation fail",
     TP, [("unwind guards", "src/thread_pool.cpp thread_pool_impl constructor scope_guards, muu_impl_thread_pool_create")],
     [mcjob("h/pool.cpp", "C07")], "every fault position x schedules to bound 1-2", TECHNIQUE_SMC, ASSUME)

prop("C08", "spin_mutex gives mutual exclusion, visibility and progress",
     "At most one thread holds a spin_mutex at a time, everything written before an unlock is visible after the next "
     "successful lock or try_lock, and a waiting lock() completes once the holder unlocks. try_lock succeeds on a free "
     "mutex, fails on a held one without disturbing it, and the type works with the standard lock guards.",
     ["schedules"],
     "every interleaving within the deviation bound of 2-4 threads mixing lock, try_lock and unlock, with a "
     "happens-before race detector that honours the memory orders used",
     "the existing tests exercise it on one schedule, and missing acquire/release ordering is invisible on x86",
     ["include/muu/spin_mutex.h"], [("test-and-test-and-set loop", "include/muu/spin_mutex.h lock/try_lock/unlock")],
     [mcjob("h/pool2.cpp", "C08")], "all schedules to deviation bound 2-5", TECHNIQUE_SMC, ASSUME)

prop("C09", "Tasks of every callable kind are stored, moved, invoked and destroyed intact",
     "Whatever the callable - function, stateless or capturing lambda, trivially copyable, move-only, copy-only, "
     "assignable-only, over-aligned, passed as temporary or lvalue, of any size up to the storage limit - the task "
     "that runs sees its captured state intact and correctly aligned, receives the arguments its signature asks for, "
     "and every instance the pool creates is destroyed exactly once whether or not it ran.",
     ["programs", "schedules"],
     "22 callable sizes/kinds around each storage boundary, for enqueue and for_each, run or dropped by destruction, "
     "over every schedule within the deviation bound",
     "the tests use a few small lambdas; the relocation paths are selected by type traits and are only wrong for "
     "particular sizes or special members",
     ["include/muu/thread_pool.h"], [("small-buffer type erasure", "include/muu/thread_pool.h thread_pool_task_traits_*"),
                                     ("relocation out of the queue", "src/thread_pool.cpp pop_front_task")],
     [mcjob("h/pool2.cpp", "C09", 4)], "every kind x schedules to bound 1-2", TECHNIQUE_SMC, ASSUME)
