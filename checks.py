"""What the check of each property consists of.

GROUPS: harness binaries. sources: (file, number of parts it is compiled in).
CHECKS: oracles that decide (tags), runs with the number of cases by tier.
"""
GROUPS = {
    "list": dict(sources=[("div_engine.cpp", 4), ("div_list.cpp", 6)]),
    "mask": dict(sources=[("mask.cpp", 3)]),
    "list_mem": dict(sources=[("div_engine.cpp", 4), ("div_list.cpp", 6), ("mem_hook.cpp", 1)], flags=["-DMON_MEMORY"]),
    "tree_mem": dict(sources=[("div_engine.cpp", 4), ("div_kd.cpp", 10), ("mem_hook.cpp", 1)], flags=["-DMON_MEMORY"]),
    "queue": dict(sources=[("q_engine.cpp", 1), ("q_small.cpp", 3)]),
    "comtree": dict(sources=[("comtree.cpp", 1), ("q_engine.cpp", 1)]),
    "geo": dict(sources=[("q_engine.cpp", 1), ("q_geo.cpp", 12)]),
    "queue_mem": dict(sources=[("q_engine.cpp", 1), ("q_small.cpp", 3), ("mem_hook.cpp", 1)], flags=["-DMON_MEMORY"]),
    "geo_mem": dict(sources=[("q_engine.cpp", 1), ("q_geo.cpp", 12), ("mem_hook.cpp", 1)], flags=["-DMON_MEMORY"]),
    "pair": dict(sources=[("pairq.cpp", 3)]),
    "pair_alloc": dict(sources=[("pairq.cpp", 3), ("mem_hook.cpp", 1)], flags=["-DMON_ALLOC"]),
    "pair_mem": dict(sources=[("pairq.cpp", 3), ("mem_hook.cpp", 1)], flags=["-DMON_MEMORY"]),
    "names": dict(sources=[("names.cpp", 4)]),
    "confs": dict(sources=[("confs.cpp", 5)]),
    "small": dict(sources=[("bits.cpp", 1), ("hash.cpp", 1)], lib=True),
    "small_mem": dict(sources=[("bits.cpp", 1), ("hash.cpp", 1), ("mem_hook.cpp", 1)], flags=["-DMON_MEMORY"], lib=True),
    "text": dict(sources=[("text.cpp", 1), ("cli.cpp", 1), ("errors.cpp", 1)], lib=True),
    "pqsim": dict(sources=[("sim_pq.cpp", 1)], lib=True, repo=("src/pqsim", ()),
                  repo_flags=["-Dmain=pqsim_main"]),
    "divsim": dict(sources=[("sim_div.cpp", 1)], lib=True, repo=("src/divsim", ("divMain.cpp",))),
    "divsim_debug": dict(sources=[("sim_div.cpp", 1)], flags=["-DDEBUG"], lib=True, repo=("src/divsim", ()),
                         repo_flags=["-DDEBUG", "-Dmain=divsim_main"]),
    "tree": dict(sources=[("div_engine.cpp", 4), ("div_kd.cpp", 10)]),
}


def run(group, flavour, quick, thorough):
    return dict(group=group, flavour=flavour, quick=quick, thorough=thorough)


DIV_RULE = ("A case is a history of 10 to 800 random operations on one configuration, with monomials of one "
            "random character, checked after every operation against a list of records. Non-trivial: the "
            "structure held at least 3 entries and a query matched or a removal removed something. Distinct: "
            "hash of configuration, operations and arguments.")
QUEUE_RULE = ("A case is a history of up to 400 operations (thorough: 900) on one configuration, with keys from a random range "
              "and pattern (all equal to all different, rising, falling, extreme), checked after every operation against the "
              "set of elements pushed. Non-trivial: the queue held at least 8 elements. Distinct: hash of configuration, "
              "operations and arguments.")
PAIR_RULE = ("A case is a history of up to 120 steps (thorough: 300) of column additions, pops, retirements and failing additions "
             "with one random order of pairs, a tenth of them with more than 65536 columns, checked after every step against "
             "the set of pairs added. Non-trivial: the queue held at least 5 pairs and some were popped. Distinct: hash of "
             "configuration, operations and arguments.")
CHECKS = {
    "C01": dict(tags="Q", rule=DIV_RULE, must_see=["divisors found", "visits"],
                runs=[run("list", "asan", 4800, 60000)]),
    "C02": dict(tags="Q", rule=DIV_RULE, must_see=["divisors found", "visits", "queries that skipped entries"],
                runs=[run("tree", "asan", 6000, 80000)]),
    "C03": dict(tags="K", rule=DIV_RULE, must_see=["entries removed", "contents checks"],
                runs=[run("list", "asan", 4800, 60000)]),
    "C04": dict(tags="K", rule=DIV_RULE, must_see=["entries removed", "contents checks", "refused insertions"],
                runs=[run("tree", "asan", 6000, 80000)]),
    "C05": dict(tags="X", must_see=["pairs that divide", "pairs ruled out by mask", "bounds"],
                rule="A case chooses the mask bits from up to 40 random monomials (none, equal, extreme), once or repeatedly, "
                     "and checks all pairs of up to 60 related monomials. Non-trivial: some pair of different monomials divides. "
                     "Distinct: hash of parameters and monomials.",
                runs=[run("mask", "asan", 24000, 300000)]),
    "C06": dict(tags="R", rule=DIV_RULE + " A twin that is never rebuilt gets the same operations.",
                must_see=["explicit rebuilds", "divisors found"],
                runs=[run("list", "asan", 1500, 20000), run("tree", "asan", 3000, 40000)]),
    "C07": dict(tags="V", rule=DIV_RULE, must_see=["visits", "visits cut short"],
                runs=[run("list", "asan", 2000, 30000), run("tree", "asan", 4000, 50000)]),
    "C08": dict(tags="D", rule=DIV_RULE, must_see=["divisors found", "entries removed"],
                runs=[run("tree", "asan", 6000, 80000)]),
    "C09": dict(leaks=True, tags="L", rule=DIV_RULE, must_see=["entries constructed", "entries removed"],
                runs=[run("list", "asan", 2500, 30000), run("tree", "asan", 4000, 50000)]),
    "C10": dict(tags="O", rule=QUEUE_RULE, must_see=["elements popped", "tops replaced", "combinations"],
                runs=[run("queue", "asan", 48000, 400000)]),
    "C11": dict(tags="O", rule=QUEUE_RULE, must_see=["elements popped", "tops replaced"],
                runs=[run("queue", "asan", 48000, 400000)]),
    "C12": dict(tags="O", rule=QUEUE_RULE, must_see=["elements popped", "tops replaced", "combinations", "clears"],
                runs=[run("geo", "asan", 64000, 500000)]),
    "C13": dict(tags="O", rule=QUEUE_RULE, must_see=["elements popped"],
                runs=[run("queue", "asan", 40000, 300000)]),
    "C14": dict(tags="U", rule=QUEUE_RULE, must_see=["elements popped", "combinations"],
                runs=[run("queue", "asan", 24000, 200000), run("geo", "asan", 48000, 400000)]),
    "C15": dict(tags="B", rule=QUEUE_RULE + " When something goes wrong, the history is repeated with elementary operations "
                "in place of bulk ones, and it is a violation only if that goes well.",
                must_see=["tops replaced", "visits", "visits cut short", "clears", "ranges pushed", "heaps moved"],
                runs=[run("queue", "asan", 32000, 200000), run("geo", "asan", 48000, 400000)]),
    "C29": dict(tags="N", rule="A case is a history on one configuration of a queue (see C12), a divisor structure (see C01), a pair queue (see C16) or "
                "a hash table (see C21), with calls of the configuration counted around every operation. Non-trivial and distinct: as there.",
                must_see=["comparisons", "divisibility tests"],
                runs=[run("queue", "plain", 4000, 100000), run("geo", "plain", 5000, 100000), run("pair", "plain", 2000, 50000),
                      run("small", "plain", 200, 4000), run("list", "plain", 2000, 50000), run("tree", "plain", 3000, 80000)]),
    "C30": dict(tags="M", rule="A case is a history on one configuration of a queue (see C12), a divisor structure (see C01), a pair queue (see C16), a bit "
                "triangle or a hash table, with the report compared with the bytes allocated after every operation. Non-trivial and distinct: as there.",
                must_see=["memory reports"],
                runs=[run("queue_mem", "plain", 12000, 300000), run("geo_mem", "plain", 12000, 300000), run("pair_mem", "plain", 4000, 100000),
                      run("small_mem", "plain", 4000, 100000), run("list_mem", "plain", 2000, 50000), run("tree_mem", "plain", 3000, 80000)]),
    "C33": dict(tags="T", leaks=True, must_see=["elements read", "elements copied", "trees moved", "trees swapped", "trees cleared", "growths asked for", "nodes navigated"],
                rule="A case is a history of up to 200 operations (thorough: 400) on up to five trees that come from one another by copying "
                     "and moving, compared with arrays after every operation. Non-trivial: a tree held at least 8 elements. Distinct: hash "
                     "of configuration, operations and arguments.",
                runs=[run("comtree", "asan", 36000, 400000)]),
    "C16": dict(tags="P", rule=PAIR_RULE, must_see=["pairs popped", "queues with large indices"],
                runs=[run("pair", "asan", 27000, 250000)]),
    "C17": dict(tags="P T", rule=PAIR_RULE, must_see=["pairs popped", "indices retired", "pairs retired"],
                runs=[run("pair", "asan", 27000, 250000)]),
    "C18": dict(tags="S", leaks=True, rule=PAIR_RULE, must_see=["pairs popped", "indices retired", "pair data computed", "failed additions"],
                runs=[run("pair", "asan", 13500, 250000)]),
    "C19": dict(tags="F", leaks=True, rule=PAIR_RULE + " When something goes wrong, the history is repeated without the failing additions, "
                "and it is a violation only if that goes well.", must_see=["pairs popped", "failed additions", "failed allocations", "repeated failures"],
                runs=[run("pair", "asan", 9000, 200000), run("pair_alloc", "asan", 9000, 200000)]),
    "C20": dict(tags="I", must_see=["bits read", "bits set"],
                rule="A case is a history of up to 120 steps of additions of columns (up to 700) and settings, read back as a whole "
                     "every 8 to 48 steps. Non-trivial: more than 3 columns and a bit set to true. Distinct: hash of the operations.",
                runs=[run("small", "asan", 4000, 100000)]),
    "C21": dict(tags="H", must_see=["keys inserted", "keys inserted again", "keys removed", "tables that grew", "values stored through handles"],
                rule="A case is a history of up to 4000 insertions, lookups and removals with one of seven hash functions, five key and "
                     "value types and initial sizes of 1 to 1024 bins, checked against a map. Non-trivial: at least 4 keys inside and "
                     "one of them found. Distinct: hash of parameters and operations.",
                runs=[run("small", "asan", 32000, 100000)]),
    "C22": dict(tags="W", must_see=["tables printed", "cells filled"],
                rule="A case builds a table of up to 40 columns with random prefixes, suffixes, directions and up to 1500 cells, and prints it "
                     "several times, each twice, against an independent layout. Non-trivial: at least 2 columns and 3 cells. Distinct: hash "
                     "of the operations.",
                runs=[run("text", "asan", 180000, 1500000)]),
    "C23": dict(tags="Z", must_see=["numbers with units", "quotients formatted", "zero denominators"],
                rule="A case formats 20 to 60 numbers and quotients, with many about the limits of the units, halves of the last digit "
                     "and the ends of the range, and compares with exact values. Distinct: hash of the numbers.",
                runs=[run("text", "asan", 300000, 2000000)]),
    "C24": dict(tags="A", must_see=["names resolved", "unknown names", "ambiguous names", "listings"],
                rule="A case registers up to 12 related names and queries prefixes in between and at the end. Non-trivial: an ambiguous "
                     "prefix was queried. Distinct: hash of names and queries.",
                runs=[run("text", "asan", 180000, 1500000)]),
    "C25": dict(tags="C", must_see=["command lines parsed", "malformed command lines", "parameters set", "arguments refused"],
                rule="A case registers up to 6 actions with up to 7 parameters each and parses up to 12 command lines, or gives a parameter "
                     "of each type up to 25 values. Non-trivial: an option changed a parameter. Distinct: hash of names and command lines.",
                runs=[run("text", "asan", 320000, 2000000)]),
    "C26": dict(tags="Y", must_see=["messages displayed", "lines broken"],
                rule="A case displays up to 6 messages by one of the five functions. Non-trivial: lines were broken. Distinct: hash of "
                     "messages and prefixes.",
                runs=[run("text", "asan", 360000, 1500000)]),
    "C27": dict(tags="J", must_see=["readings of the timer", "readings of the real clock", "printed times with hours"],
                rule="A case advances a controlled processor clock in up to 40 steps, with resets and copies of timers; one case in 30 uses "
                     "the real clock. Non-trivial: time passed. Distinct: hash of the steps.",
                runs=[run("text", "asan", 360000, 1500000)]),
    "C32": dict(tags="G", must_see=["actions listed", "topics displayed", "parameters described", "errors of help"],
                rule="A case registers up to 6 actions and asks for help up to 4 times. Non-trivial: at least 2 actions listed or a "
                     "parameter described. Distinct: hash of names and topics.",
                runs=[run("text", "asan", 200000, 1000000)]),
    "C31": dict(tags="E", must_see=["runs of pqsim", "queues run", "events replayed", "wrong queues noticed", "runs of divsim", "structures run",
                                     "wrong structures noticed", "divisors found"],
                rule="A case runs one simulation with random arguments in a process of its own: the programs themselves (divsim in its "
                     "debug size) or their simulators with all models and a plain reference that runs first, and often again with a "
                     "reference that is wrong once, which has to be noticed. Non-trivial: at least one element or a divisor simulation. "
                     "Distinct: hash of the arguments.",
                runs=[run("pqsim", "asan", 800, 12000), run("divsim", "asan", 240, 4000), run("divsim_debug", "asan", 160, 3000)]),
    "C34": dict(tags="e", must_see=["errors raised", "errors with their place"],
                rule="A case reports up to 12 errors in each of the ways there are, with random messages of up to 20000 characters, and looks "
                     "at what is raised. Non-trivial: an error was raised. Distinct: hash of messages and places.",
                runs=[run("text", "asan", 90000, 600000)]),
    "C36": dict(tags="A", must_see=["automatic rebuilds seen", "changes without a rebuild", "changes without automatic rebuilds"],
                rule=DIV_RULE + " Half of the structures start with hundreds of entries. A rebuild is seen as one operation that copies "
                     "every entry of a tree, or looks at the exponents of every entry of a list with masks, in structures large enough "
                     "that nothing else does.",
                runs=[run("list", "asan", 1600, 40000), run("tree", "asan", 2400, 60000)]),
    "C37": dict(tags="p", rule=QUEUE_RULE + " In between, the queue is printed and what is printed is compared with what is inside.",
                must_see=["prints", "large buckets printed"],
                runs=[run("queue", "asan", 16000, 200000), run("geo", "asan", 24000, 300000)]),
    "C38": dict(tags="n", must_see=["pairs of the same configuration", "pairs of different configurations"],
                rule="A case makes up to 20 divisor lists, trees, heaps, tournament trees, geobuckets and sets of types and options close to one "
                     "another and compares their names. Non-trivial: two of them differ. Distinct: hash of the configurations.",
                runs=[run("names", "asan", 60000, 1500000)]),
    "C39": dict(tags="c", must_see=["objects made", "calls of configurations", "values stored in configurations"],
                rule="A case is a history of one divisor structure, queue, pair queue or hash table whose configuration knows which one it is "
                     "and that it is not gone; the one it was made from is destroyed first. Non-trivial: more than 50 calls of the "
                     "configuration. Distinct: hash of the operations.",
                runs=[run("confs", "asan", 40000, 800000)]),
    "C35": dict(tags="-", together=True, must_see=["threads run", "changes from one case to another", "uses inside a call of another's configuration", "cases run with others of the same types"],
                rule="A case runs two to four cases of other properties together, two thirds of the time with structures of the same "
                     "types: in threads of their own under ThreadSanitizer, or in one thread under AddressSanitizer that goes from one to "
                     "another at random between operations and in calls of the configurations. When one goes wrong, it is a violation "
                     "only if it goes well alone. Non-trivial: at least two of the cases are. Distinct: hash of the cases.",
                runs=[run(g, f, n, n * 30) for f, p in (("tsan", 1), ("asan", 2)) for g, n in
                      (("list", 800 if f == "asan" else 0), ("tree", 1600 if f == "asan" else 0), ("mask", 300 * p), ("queue", 1200 * p), ("geo", 1200 * p), ("pair", 600 * p), ("small", 400 * p),
                       ("comtree", 600 * p), ("confs", 400 * p), ("text", 3000 * p)) if n]),
    "C28": dict(tags="C28", leaks=True, must_see=["comparisons", "elements popped", "divisors found", "entries removed", "pairs popped", "keys removed",
                                                  "bits set", "tables printed", "command lines parsed", "runs of pqsim", "runs of divsim"],
                rule="A case is a case of one of the other properties under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer, or in a build "
                     "with the library's own assertions (all of them). Anything else that goes wrong ends a case early. Non-trivial and distinct: as there.",
                runs=[run("list", "asan", 800, 30000), run("tree", "asan", 1200, 50000), run("mask", "asan", 1200, 40000), run("queue", "asan", 3000, 100000),
                      run("geo", "asan", 4000, 150000), run("pair", "asan", 2400, 80000), run("small", "asan", 1200, 40000), run("comtree", "asan", 1200, 40000), run("text", "asan", 20000, 500000),
                      run("pqsim", "asan", 80, 2000), run("divsim", "asan", 40, 1000), run("divsim_debug", "asan", 24, 600),
                      run("list", "debug", 800, 30000), run("tree", "debug", 1200, 50000), run("mask", "debug", 1200, 40000), run("queue", "debug", 3000, 100000),
                      run("geo", "debug", 4000, 150000), run("pair", "debug", 2400, 80000), run("small", "debug", 1200, 40000), run("comtree", "debug", 1200, 40000),
                      run("list", "valgrind", 240, 4000), run("tree", "valgrind", 320, 6000), run("queue", "valgrind", 480, 10000), run("geo", "valgrind", 480, 10000),
                      run("pair", "valgrind", 240, 6000), run("small", "valgrind", 160, 3000), run("text", "valgrind", 800, 20000), run("mask", "valgrind", 160, 3000)]),
}
